# which harnesses, scenarios and bounds decide which property
ASSUME = ["asynchronous reads are emulated as boost::asio::async_read performs them", "Boost.Asio, the C++ runtime and the compiler are trusted"]
SIM_ASSUME = ['sequentially consistent memory (relaxed-memory reorderings are not explored)', 'scheduling points are synchronisation operations, volatile accesses, atomics and system calls; plain accesses are explored at those points only unless stated', 'the virtual network and clock replace the kernel', 'Boost.Asio, libstdc++ and the compiler are trusted (they run for real, compiled into the harness)']
def S(name, **k): return dict(name=name, **k)
U8 = ['-DST_ASIO_MSG_BUFFER_SIZE=8', '-DNDEBUG']
CHECKS = {}
def add(id, **k): CHECKS[id] = k
add('C01', note='every list of up to 3 messages with every body length the (tiny) buffer allows and every segmentation, all unpackers; messages around the 4000-byte boundary with cuts at every structural boundary', groups=[
  dict(bin='q_small', kind='seq', src='q_unpack.cpp', flags=U8, scen=[S('framing_small', parq=dict(bytes=11), part=dict(bytes=15), w=3)]),
  dict(bin='q_huge', kind='seq', src='q_unpack.cpp', flags=['-DST_ASIO_MSG_BUFFER_SIZE=10', '-DST_ASIO_HUGE_MSG', '-DST_ASIO_SCATTERED_RECV_BUFFER', '"-DST_ASIO_RECV_BUFFER_TYPE=std::vector<boost::asio::mutable_buffer>"'], scen=[S('framing_small', parq=dict(bytes=12), part=dict(bytes=17), w=3)]),
  dict(bin='q_big', kind='seq', src='q_unpack.cpp', flags=['-DST_ASIO_MSG_BUFFER_SIZE=4010', '-DNDEBUG'], scen=[S('framing_big', parq=dict(msgs=2), part=dict(msgs=3), w=2)]),
])
add('C02', note='delimited, fixed-length and raw unpackers: every list of messages of every length over small alphabets (pieces of the delimiters included) and every segmentation', groups=[
  dict(bin='q_small', kind='seq', src='q_unpack.cpp', flags=U8, scen=[S('delimited_valid', parq=dict(bytes=9), part=dict(bytes=13)), S('fixed_all', parq=dict(bytes=12), part=dict(bytes=16)), S('stream_all', parq=dict(bytes=14), part=dict(bytes=20))]),
])
add('C03', note='every byte string of bounded length built from lengths, delimiters and data (malformed, truncated, oversized) in every segmentation: no access outside the buffer (ASan), error or clean waiting, reuse after reset', groups=[
  dict(bin='q_small', kind='seq', src='q_unpack.cpp', flags=U8, scen=[S('malformed_small', parq=dict(bytes=7), part=dict(bytes=12)), S('delimited_all', parq=dict(len=6), part=dict(len=8))]),
  dict(bin='q_huge', kind='seq', src='q_unpack.cpp', flags=['-DST_ASIO_MSG_BUFFER_SIZE=10', '-DST_ASIO_HUGE_MSG', '-DST_ASIO_SCATTERED_RECV_BUFFER', '"-DST_ASIO_RECV_BUFFER_TYPE=std::vector<boost::asio::mutable_buffer>"'], scen=[S('malformed_small', parq=dict(bytes=9), part=dict(bytes=13))]),
  dict(bin='q_big', kind='seq', src='q_unpack.cpp', flags=['-DST_ASIO_MSG_BUFFER_SIZE=4010', '-DNDEBUG'], scen=[S('malformed_big', parq=dict(msgs=2), part=dict(msgs=3))]),
])
add('C04', note='every packing interface x every division of a message into pieces x lengths around each limit, decoded again; small, huge and wide header builds', groups=[
  dict(bin='q_pack', kind='seq', src='q_pack.cpp', flags=['-DST_ASIO_MSG_BUFFER_SIZE=8'], scen=[S('pack_forms')]),
  dict(bin='q_pack_huge', kind='seq', src='q_pack.cpp', flags=['-DST_ASIO_MSG_BUFFER_SIZE=9', '-DST_ASIO_HUGE_MSG', '-DNDEBUG'], scen=[S('pack_forms')]),
  dict(bin='q_pack_wide', kind='seq', src='q_pack.cpp', flags=['-DST_ASIO_MSG_BUFFER_SIZE=70000', '-DNDEBUG'], scen=[S('pack_forms')]),
])
add('C05', note='every sequence of buffer operations up to the depth with every size around the boundaries against a reference string, under ASan', groups=[dict(bin='q_buffer', kind='seq', src='q_buffer.cpp', flags=[], scen=[S('buffer_ops', parq=dict(depth=2), part=dict(depth=3), w=5), S('buffer_ops', parq=dict(depth=3, few=1), part=dict(depth=4, few=1), w=5)])])
add('C32', note='every format of the library and pieces around the fixed buffer size with every length, gcc and clang, ASan', groups=[
  dict(bin='q_log_gcc', cxx='g++', kind='seq', src='q_log.cpp', flags=['-DNDEBUG'], scen=[S('log_format')]),
  dict(bin='q_log', kind='seq', src='q_log.cpp', flags=['-DNDEBUG'], scen=[S('log_format')])])
HS=dict(kind='sim',src='h_send.cpp'); HR=dict(kind='sim',src='h_recv.cpp')
def G(base, bin, flags, *scen): return dict(base, bin=bin, flags=flags, scen=list(scen))
NW=['-DST_ASIO_WANT_MSG_SEND_NOTIFY','-DST_ASIO_WANT_ALL_MSG_SEND_NOTIFY']
NB=['-DST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY','-DST_ASIO_WANT_ALL_MSG_SEND_NOTIFY','-DST_ASIO_SHRINK_SEND_BUFFER']
PAS=['-DST_ASIO_PASSIVE_RECV','-DST_ASIO_AVOID_AUTO_STOP_SERVICE']
add('C07', note='2-3 senders, 1-2 service threads, every sending interface, short/blocked/reset writes, reconnection; all schedules up to the deviation bound', assumptions=SIM_ASSUME, groups=[
  G(HS,'hs',[],S('send_2x1',q=2,t=4),S('send_2x2',q=2,t=4,w=2),S('send_2x2_env',q=2,t=3,w=2),S('send_3x1_env',q=2,t=3,w=2),S('send_lists',q=2,t=3,w=2),S('send_slow_peer',q=1,t=3),S('send_callbacks',q=1,t=3),S('send_offline',q=1,t=2),S('send_reset_reconnect',q=2,t=3),S('send_priority',q=2,t=3)),
  G(HS,'hs_w',NW,S('send_2x2_env',q=1,t=3)),
])
add('C08', note='every sequence of sends through every interface against limits; waiting senders, popping and shrinking under all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HS,'hs',[],S('limit_seq',q=0,t=1),S('safe_send',q=1,t=2),S('pop_pending',q=2,t=4),S('send_priority',q=2,t=3)),
  G(HS,'hs_b',NB,S('shrink_seq',q=0,t=1),S('shrink_race',q=2,t=4)),
])
add('C09', note='per-message, batch and all-sent notification builds; short writes, resets injected at every write, all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HS,'hs_w',NW,S('notify_ok',q=2,t=3),S('notify_err',q=2,t=3),S('notify_batches',q=0,t=1)),
  G(HS,'hs_b',NB,S('notify_ok',q=2,t=3),S('notify_err',q=2,t=3),S('notify_batches',q=0,t=1)),
  G(HS,'hs_a',['-DST_ASIO_WANT_ALL_MSG_SEND_NOTIFY'],S('notify_ok',q=2,t=3),S('notify_batches',q=0,t=1)),
])
add('C10', note='single, batch and synchronous dispatching, every refusal pattern, 1-3 service threads, reconnection; all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HR,'hr',[],S('dispatch_seq',q=0,t=1,parq=dict(refusals=2),w=2),S('dispatch_race',q=2,t=4,w=2),S('dispatch_race3',q=2,t=3),S('dispatch_pop',q=2,t=4),S('dispatch_reconnect',q=1,t=3)),
  G(HR,'hr_b',['-DST_ASIO_DISPATCH_BATCH_MSG'],S('batch_seq',q=0,t=1),S('batch_race',q=2,t=4),S('batch_reconnect',q=1,t=3)),
  G(HR,'hr_d',['-DST_ASIO_SYNC_DISPATCH'],S('sync_dispatch_seq',q=0,t=1),S('sync_dispatch_race',q=2,t=4)),
])
add('C11', note='buffer of one to two messages, every limit/interval/refusal pattern; dispatcher, resume timer, reader and draining application race under all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HR,'hr_s',['-DST_ASIO_MSG_BUFFER_SIZE=16'],S('overflow_seq',q=0,t=1),S('overflow_race',q=2,t=3,w=3),S('overflow_pop',q=2,t=4)),
])
add('C12', note='every pattern of read requests from callbacks and foreign threads, all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HR,'hr_p',PAS,S('passive_exact',q=0,t=1),S('passive_race',q=2,t=3,w=2),S('passive_lost',q=2,t=4)),
  G(HR,'hr_pd',PAS+['-DST_ASIO_SYNC_DISPATCH'],S('passive_exact',q=0,t=1),S('passive_race',q=2,t=3,w=2)),
  G(HR,'hr_pb',PAS+['-DST_ASIO_DISPATCH_BATCH_MSG'],S('passive_exact',q=0,t=1),S('passive_race',q=2,t=3,w=2),S('passive_lost',q=2,t=4)),
  G(HR,'hr_srp',PAS+['-DST_ASIO_SYNC_RECV'],S('sync_recv_data',q=1,t=3)),
])
add('C14', note='a waiting receiver against data, timeouts, a second receiver, peer close, reset, every shutdown call and service stop; all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HR,'hr_sr',['-DST_ASIO_SYNC_RECV'],S('sync_recv_data',q=2,t=3,w=2),S('sync_recv_timeout',q=1,t=3),S('sync_recv_dup',q=2,t=3),S('sync_recv_close',q=1,t=3,w=3),S('sync_recv_stop',q=1,t=3),S('sync_recv_suspended',q=2,t=3)),
  G(HR,'hr_srp',PAS+['-DST_ASIO_SYNC_RECV'],S('sync_recv_data',q=1,t=3),S('sync_recv_timeout',q=1,t=2),S('sync_recv_close',q=0,t=2)),
])
HSS=dict(kind='sim',src='h_ssend.cpp'); HT=dict(kind='sim',src='h_timer.cpp')
add('C13', note='every interface, 1-3 synchronous senders with and without time limit against short, blocked and reset writes, full buffers, popping, shrinking, every way a link can end, reconnection and restart; all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HSS,'hss',['-DST_ASIO_SYNC_SEND'],S('ssend_ok',q=2,t=3),S('ssend_ok3',q=2,t=3),S('ssend_forms',q=0,t=1),S('ssend_timeout',q=1,t=3),S('ssend_refused',q=2,t=3),S('ssend_end',q=1,t=2,w=2),S('ssend_end_slow',q=0,t=1),S('ssend_reconnect',q=1,t=2),S('ssend_reset',q=2,t=3),S('ssend_stop_restart',q=1,t=2)),
  G(HSS,'hss_b',['-DST_ASIO_SYNC_SEND','-DST_ASIO_SHRINK_SEND_BUFFER'],S('ssend_shrink',q=1,t=3)),
])
TS=(S('timer_inside',q=0,t=1),S('timer_slow',q=0,t=1),S('timer_alone',q=0,t=1),S('timer_threads',q=1,t=3),S('timer_stop_race',q=2,t=4))
add('C15', note='every sequence of timer operations up to a length, from outside and from inside callbacks, also with coinciding expiries and slow callbacks; concurrent use of different timers under all schedules up to the bound; plain and tracked executors, aligned and steady timers', assumptions=SIM_ASSUME, groups=[
  G(HT,'ht',[],S('timer_ops',q=0,t=1,w=3,parq=dict(len=3),part=dict(len=4)),*TS),
  G(HT,'ht_a',['-DST_ASIO_ALIGNED_TIMER'],S('timer_ops',q=0,t=0,parq=dict(len=2),part=dict(len=3)),*TS[:3]),
  G(HT,'ht_p',['-DPLAIN_EXECUTOR'],S('timer_ops',q=0,t=0,parq=dict(len=2),part=dict(len=3)),*TS[:3]),
  G(HT,'ht_s',['-DST_ASIO_USE_STEADY_TIMER'],S('timer_ops',q=0,t=0,parq=dict(len=2),part=dict(len=3)),*TS[:3]),
])
HC=dict(kind='sim',src='h_close.cpp'); CF=['-DST_ASIO_AVOID_AUTO_STOP_SERVICE','-DST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION=1','-DST_ASIO_WANT_MSG_SEND_NOTIFY']
CS=(S('close_client',q=1,t=2,w=3),S('close_client_busy',q=1,t=2,w=2),S('close_client_err',q=1,t=3),S('close_server',q=1,t=2,w=3),S('close_server_busy',q=1,t=2,w=2))
CS0=(S('close_client',q=0,t=1,w=2),S('close_client_busy',q=0,t=1),S('close_server',q=0,t=1,w=2),S('close_server_busy',q=0,t=1))
add('C16', note='client and server links: every pair out of peer close, reset, half-close, garbage, forced and graceful shutdown and shutdown inside a callback, with and without timers, refused messages, blocked writes and posted calls; client objects are deleted and pool objects freed as soon as they are shown as free, with use-after-free and destructor checks; all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HC,'hc',CF,*CS),
  G(HC,'hc_p',CF+['-DST_ASIO_SYNC_DISPATCH','-DST_ASIO_DISPATCH_BATCH_MSG'],*CS0),
  G(HC,'hc_u',CF+['-DST_ASIO_SYNC_RECV','-DST_ASIO_SYNC_SEND'],*CS0),
  G(HC,'hc_d',CF+['-DST_ASIO_DELAY_CLOSE=1'],S('close_client',q=0,t=1),S('close_server',q=0,t=1)),
])
GS1=(S('grace_client',q=1,t=2,w=2),S('grace_server',q=1,t=2,w=2),S('grace_client_send',q=1,t=2),S('grace_server_send',q=1,t=2))
GS0=(S('grace_client',q=0,t=1),S('grace_server',q=0,t=1),S('grace_client_send',q=0,t=2),S('grace_server_send',q=0,t=2))
add('C17', note='graceful shutdown from one or two threads while messages are queued, written or being submitted, against peers that send before, after and long after the end of stream and close, or never close; also every pair of shutdown events (single close); all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HC,'hc',CF,*GS1,S('close_client',q=0,t=1),S('close_server',q=0,t=1)),
  G(HC,'hc_5',CF[:1]+CF[2:],*GS0),
  G(HC,'hc_p',CF+['-DST_ASIO_SYNC_DISPATCH','-DST_ASIO_DISPATCH_BATCH_MSG'],*GS0),
  G(HC,'hc_d',CF+['-DST_ASIO_DELAY_CLOSE=1'],*GS0),
])
HN=dict(kind='sim',src='h_conn.cpp')
CN1=(S('conn_first',q=1,t=3),S('conn_errors',q=3,t=5,w=2),S('conn_bind',q=2,t=4),S('conn_end',q=1,t=3,w=2),S('conn_shutdown',q=1,t=2,w=3),S('conn_pairs',q=1,t=2,w=2),S('conn_restart',q=2,t=3),S('conn_service',q=2,t=3,w=2))
CN0=tuple(S(x,q=0,t=1) for x in ('conn_first','conn_end','conn_shutdown','conn_pairs','conn_restart','conn_service'))
add('C18', note='one client against a server that appears late, refuses, swallows or drops connections in every pattern, local binds that fail, every way to end the link with every reconnect setting, shutdown, service stop or restart in any phase, pairs of events; attempts are observed at the socket interface; all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HN,'hcn',CF[:2],*CN1),
  G(HN,'hcn_p',CF[:2]+['-DST_ASIO_SYNC_RECV','-DST_ASIO_SYNC_SEND','-DST_ASIO_DISPATCH_BATCH_MSG'],*CN0),
  G(HN,'hcn_d',CF[:2]+['-DST_ASIO_CLEAR_OBJECT_INTERVAL=1'],*CN0),
])
HQ=dict(kind='seq',src='q_pool.cpp'); HP=dict(kind='sim',src='h_pool.cpp'); HV=dict(kind='sim',src='h_srv.cpp')
PO=lambda w=1: S('pool_ops',parq=dict(depth=4),part=dict(depth=5),w=w)
add('C19', note='every sequence of up to 4 (thorough 5) operations on the object pool: create, add, remove by object and by id, change and initialise ids, find, recycle, shrink, limits, references held and dropped, against an independent reference; plus two or three threads doing such operations concurrently under all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HQ,'qp',[],PO()), G(HQ,'qp_r',['-DST_ASIO_REUSE_OBJECT'],PO()), G(HQ,'qp_s',['-DST_ASIO_RESTORE_OBJECT'],PO()),
  G(HP,'hp',[],S('pool_1x1',q=2,t=4),S('pool_2x2',q=0,t=1,w=2),S('pool_1x1x1',q=1,t=2)),
  G(HP,'hp_r',['-DST_ASIO_REUSE_OBJECT'],S('pool_1x1',q=2,t=4),S('pool_2x2',q=0,t=1,w=2),S('pool_1x1x1',q=1,t=2)),
])
AV=['-DST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION=1','-DST_ASIO_AVOID_AUTO_STOP_SERVICE']
add('C21', note='bursts of connections, 1-3 pending accepts, vetoes, the maximum, failing accepts with every reaction, failing bind and listen, listening and service stopped and started again while connections arrive; all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HV,'hv',AV,S('accept_burst',q=1,t=2),S('accept_limit',q=1,t=2),S('accept_errors',q=2,t=5),S('accept_stop',q=1,t=3),S('accept_again',q=2,t=4),S('accept_listen_fail',q=1,t=3),S('accept_service',q=1,t=3)),
  G(HV,'hv_a',AV[:1],S('accept_burst',q=0,t=1),S('accept_service',q=1,t=3)),
])
add('C20', note='recycling: links with every kind of leftover ended in every way, object held or not, then recycled and compared with a fresh one; a user finding and using the old link while it ends and new connections want its object; restoration: 1-2 links restoring an old one that is alive, ending, closed, held, unknown or already restored, from callbacks and threads; all schedules up to the bound; the pool operations themselves exhaustively against a reference', assumptions=SIM_ASSUME, groups=[
  G(HV,'hv_r',AV+['-DST_ASIO_REUSE_OBJECT'],S('reuse_clean',q=0,t=2),S('reuse_race',q=1,t=2)),
  G(HV,'hv_rs',AV+['-DST_ASIO_REUSE_OBJECT','-DST_ASIO_SYNC_SEND','-DST_ASIO_SYNC_RECV'],S('reuse_clean',q=0,t=1),S('reuse_race',q=0,t=2)),
  G(HV,'hv_s',AV+['-DST_ASIO_RESTORE_OBJECT'],S('restore_link',q=1,t=2),S('restore_init',q=2,t=4)),
  G(HQ,'qp_r',['-DST_ASIO_REUSE_OBJECT'],PO(.5)), G(HQ,'qp_s',['-DST_ASIO_RESTORE_OBJECT'],PO(.5)), G(HQ,'qp',[],PO(.5)),
])
HB=dict(kind='sim',src='h_bcast.cpp')
add('C22', note='servers and multi-link clients: every overload of every broadcast function with free and full buffers and priority, two broadcasters while links go and come, safe broadcasts waiting for a slow link while others end and come, every shutdown function for one and for all links while another link ends; all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HB,'hb',AV,S('bcast_forms_srv',q=0,t=1),S('bcast_forms_cli',q=0,t=1),S('bcast_race_srv',q=1,t=2,w=2),S('bcast_race_cli',q=1,t=2,w=2),S('bcast_slow_srv',q=1,t=2),S('bcast_slow_cli',q=1,t=2),S('shut_srv',q=1,t=2),S('shut_cli',q=1,t=2)),
])
HPU=dict(kind="sim",src="h_pump.cpp")
DT=['-DST_ASIO_DECREASE_THREAD_AT_RUNTIME']
add('C23', note='recording services and real ones (server, client, multi-link client, UDP) on a pump with 1-2 threads: started, stopped and started again with work in flight, run_service ended from everywhere, services added/found/started/stopped/removed by several threads, throwing callbacks with both answers of the hook, pumps without work guard that end by themselves; all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HPU,'hu',AV,S('pump_cycle',q=1,t=2),S('pump_run',q=2,t=3),S('pump_dynamic',q=2,t=3),S('pump_throw',q=2,t=3),S('pump_all',q=1,t=1)),
  G(HPU,'hu_n',AV[:1],S('pump_auto',q=2,t=3),S('pump_all',q=0,t=1)),
  G(HPU,'hu_d',AV+DT,S('pump_cycle',q=0,t=1),S('pump_run',q=1,t=2),S('pump_throw',q=2,t=3)),
])
add('C24', note='2-3 io_contexts with a server, single and multi-link clients and UDP sockets: every sequence of 2 (3) operations out of 11, stopped, started again and destroyed, the references compared with what every object must hold at every rest point; connections and links coming and going concurrently; every distribution of threads over io_contexts', assumptions=SIM_ASSUME, groups=[
  G(HPU,'hu',AV,S('ctx_refs',q=0,t=1),S('ctx_refs',q=0,t=0,parq=dict(ops=3),part=dict(ops=4)),S('ctx_race',q=2,t=3),S('ctx_threads',q=0,t=1),S('ctx_later',q=0,t=1),S('ctx_single',q=0,t=1)),
  G(HPU,'hu_r',AV+['-DST_ASIO_REUSE_OBJECT'],S('ctx_refs',q=0,t=1),S('ctx_race',q=1,t=2)),
  G(HPU,'hu_c',AV+['-DST_ASIO_CLEAR_OBJECT_INTERVAL=60'],S('ctx_refs',q=0,t=1)),
])
add('C25', note='1-3 initial threads, every pair of additions and removals from outside, inside a callback and from two threads, with work between them or not, while the pump is stopped or not, and a second io_context; all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HPU,'hu_d',AV+DT,S('thread_num',q=1,t=2,w=2),S('thread_del',q=2,t=3),S('thread_ctx',q=2,t=3)),
  G(HPU,'hu',AV,S('thread_num',q=1,t=2)),
])
HQU=dict(kind='seq',src='q_queue.cpp'); HQS=dict(kind='sim',src='h_queue.cpp')
QS=lambda n: S(n,parq=dict(depth=3),part=dict(depth=4))
add('C06', note='every sequence of 3 (thorough 4) operations out of 37 variants from 0-3 queued messages against a reference list, for locking and plain queues of strings and buffers; two and three threads with every combination of 11 operations, preempted at every memory access, every observed history and final content compared with all sequential orders (linearizability)', assumptions=SIM_ASSUME, groups=[
  G(HQU,'qq',[],QS('queue_lock'),QS('queue_plain'),QS('queue_buffer')),
  G(HQS,'hq',[],S('queue_2x1',q=2,t=4),S('queue_3x1f',q=1,t=2,w=2),S('queue_2x2',t=1,thorough_only=True)),
])
NOT_APPLICABLE = {'C35': 'the KCP library (ikcp.h) the reliable UDP sockets are built on is not installed here, so the code cannot be compiled or executed'}
HUD=dict(kind='sim',src='h_udp.cpp'); UF=['-DST_ASIO_AVOID_AUTO_STOP_SERVICE','-DST_ASIO_MSG_BUFFER_SIZE=16']
UW=UF+['-DST_ASIO_WANT_MSG_SEND_NOTIFY','-DST_ASIO_DISPATCH_BATCH_MSG']
UC=(S('udp_close',q=1,t=2),S('udp_multi',q=1,t=2))
add('C26', note='1-3 threads sending through every interface with blocked and failing sends, receivers that refuse, suspend and drain, datagrams of every small length, both directions at once, connect mode, every way to close and restart a socket and a multi-socket service; all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HUD,'ud',UF,S('udp_send',q=2,t=3),S('udp_send_env',q=1,t=3),S('udp_send3',q=1,t=2),S('udp_recv',q=1,t=2),S('udp_both',q=2,t=3),S('udp_connected',q=1,t=3),*UC),
  G(HUD,'ud_w',UW,S('udp_send',q=1,t=2),S('udp_send_env',q=1,t=3),S('udp_recv',q=1,t=2),S('udp_both',q=1,t=2)),
])
CHECKS['C13']['groups'].append(G(HUD,'ud_s',UF+['-DST_ASIO_SYNC_SEND'],S('udp_sync',q=1,t=3)))
CHECKS['C16']['groups'].append(G(HUD,'ud',UF,S('udp_close',q=1,t=2)))
HK=dict(kind='sim',src='h_socks.cpp')
K5=(S('socks4_all',q=0,t=1),S('socks5_all',q=0,t=0,w=2),S('socks_cred',q=0,t=0),S('socks_domain',q=0,t=0))
add('C27', note='every target form, credentials of every length around the limits, every method selection, authentication and request reply (codes, address types, lengths), every structural cut or byte by byte, application data glued to the reply, the proxy ending at every point; shutdowns, service stop and proxy end in every phase and reconnection under all schedules up to the bound; also with assertions enabled', assumptions=SIM_ASSUME, groups=[
  G(HK,'hk',AV[1:],*K5,S('socks4_end',q=1,t=2),S('socks5_end',q=1,t=2),S('socks_again',q=1,t=2)),
  G(HK,'hk_d',AV[1:]+['-UNDEBUG'],S('socks4_all',q=0,t=1),S('socks_cred',q=0,t=0),S('socks_domain',q=0,t=0)),
])
HHB=dict(kind='sim',src='h_hb.cpp')
AM=['-DST_ASIO_AVOID_AUTO_STOP_SERVICE','-DST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION=1']
HT=lambda n,qs,ts: S(n,q=0,t=0,parq=dict(steps=qs),part=dict(steps=ts))
add('C28', note='client, server and UDP links with every pattern of messages and heartbeats in both directions at every half second, intervals 1-2, maximum absence 1-3, different fractions of a second, always-send or not, against a model in whole seconds; sends, receptions, shutdowns and peer closes exactly at a check under all schedules up to the bound; blocked sending; reconnecting pairs and vanished peers; heartbeats of every packer between messages in every segmentation', assumptions=SIM_ASSUME, groups=[
  G(HHB,'hb0',AM,HT('hb_client',4,6),HT('hb_server',3,6),S('hb_race',q=1,t=3),S('hb_blocked',q=0,t=2),S('hb_udp',q=0,t=1)),
  G(HHB,'hb_a',AM+['-DST_ASIO_ALWAYS_SEND_HEARTBEAT'],HT('hb_client',3,5),HT('hb_server',3,5),S('hb_race',q=1,t=3),S('hb_blocked',q=0,t=2),S('hb_udp',q=0,t=1)),
  G(HHB,'hb_i',AM+['-DST_ASIO_HEARTBEAT_INTERVAL=1'],S('hb_pair',q=0,t=1),S('hb_dead',q=0,t=1),S('hb_udp',q=0,t=1)),
  G(HHB,'hb_i2',AM+['-DST_ASIO_HEARTBEAT_INTERVAL=2','-DST_ASIO_HEARTBEAT_MAX_ABSENCE=2','-DST_ASIO_DISPATCH_BATCH_MSG'],S('hb_pair',q=0,t=1),S('hb_dead',q=0,t=1),S('hb_udp',q=0,t=1)),
  dict(bin='q_small', kind='seq', src='q_unpack.cpp', flags=U8, scen=[S('heartbeat_forms', parq=dict(n=3), part=dict(n=4))]),
])
HST=dict(kind='sim',src='h_stat.cpp'); QST=dict(kind='seq',src='q_stat.cpp')
OP=lambda n,q,t,**k: S(n,q=0,t=0,parq=dict(ops=q),part=dict(ops=t),**k)
SD=(S('stat_duration',parq=dict(depth=5),part=dict(depth=6)),S('stat_whole',parq=dict(ops=3),part=dict(ops=4)))
FS='-DST_ASIO_FULL_STATISTIC'
add('C29', note='every bounded sequence of samples, sums, differences, copies and resets against a reference; every short history of 10 kinds of traffic on client, server and UDP links, ended in every way and established or recycled again, counters compared with the bytes on the wire and the delivered messages; delayed, blocked and slow operations with every duration compared with its samples in virtual time', assumptions=SIM_ASSUME, groups=[
  G(QST,'qst',[],*SD), G(QST,'qst_f',[FS],*SD),
  G(HST,'st',AM,OP('stat_client',2,4),OP('stat_server',2,4),S('stat_race',q=1,t=3),OP('stat_udp',4,6),S('stat_udp',q=1,t=2)),
  G(HST,'st_f',AM+[FS],OP('stat_client',1,3),OP('stat_server',1,3),S('stat_race',q=1,t=3),OP('stat_times',3,5),S('stat_idle',q=0,t=1),OP('stat_udp_times',3,4)),
  G(HST,'st_fw',AM+[FS,'-DST_ASIO_WANT_MSG_SEND_NOTIFY','-DST_ASIO_REUSE_OBJECT'],OP('stat_client',1,3),OP('stat_server',2,3),S('stat_race',q=1,t=2),OP('stat_times',2,4),S('stat_idle',q=0,t=1)),
])
HCB=dict(kind='sim',src='h_cb.cpp'); CBS=(S('cb_direct',q=0,t=1),S('cb_life',q=0,t=1),S('cb_results',q=1,t=3))
add('C33', note='every callback of the socket (TCP client, server, UDP), server and pool classes in every form of registration (functor, function, default, pass on, not, replaced, removed) with every combination of results, called through the virtual functions; whole lives of real links with and without callbacks compared; results of callbacks deciding under all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HCB,'cb',AM,*CBS),
  G(HCB,'cb_b',AM+['-DST_ASIO_DISPATCH_BATCH_MSG','-DST_ASIO_SYNC_DISPATCH','-DST_ASIO_WANT_MSG_SEND_NOTIFY'],*CBS),
  G(HCB,'cb_a',AM+['-DST_ASIO_WANT_MSG_SEND_NOTIFY','-DST_ASIO_WANT_ALL_MSG_SEND_NOTIFY','-DST_ASIO_SHRINK_SEND_BUFFER','-DST_ASIO_RESTORE_OBJECT'],*CBS),
])
UX=['-DUNIX']+AM; HX=dict(kind='sim',src='h_unix.cpp')
Q1=lambda *n,q=1,t=2,w=1: tuple(S(x,q=q,t=t,w=w) for x in n)
add('C34', note='the library\'s own UNIX domain server, single and multi-link client and datagram classes with each other, and the scenarios of TCP and UDP links (sending, dispatching, ends, graceful shutdown, reconnecting, accepting, recycling, broadcasting) compiled for UNIX domain sockets; all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HX,'hx',AM,*Q1('unix_pair','unix_multi',w=5),*Q1('unix_udp')),
  G(HX,'hx_r',AM+['-DST_ASIO_REUSE_OBJECT'],*Q1('unix_pair',q=0,t=1)),
  G(HS,'hs_x',UX+NW,*Q1('send_2x2_env','send_lists','send_slow_peer','send_reset_reconnect','notify_ok','notify_err',q=1,t=3)),
  G(HR,'hr_x',UX,*Q1('dispatch_race','dispatch_pop','dispatch_reconnect',q=1,t=3)),
  G(HC,'hc_x',UX+CF[2:],*Q1('close_client','close_server','grace_client','grace_server',q=0,t=2),*Q1('close_client_err',q=1,t=3),*Q1('grace_client_send','grace_server_send',q=0,t=2)),
  G(HN,'hcn_x',UX,*Q1('conn_first','conn_end','conn_shutdown','conn_pairs','conn_restart','conn_service',w=4),*Q1('conn_errors',q=3,t=5)),
  G(HV,'hv_x',UX,*Q1('accept_burst','accept_stop','accept_again','accept_listen_fail','accept_service'),*Q1('accept_limit',q=0,t=1),*Q1('accept_errors',q=2,t=4)),
  G(HV,'hv_xr',UX+['-DST_ASIO_REUSE_OBJECT'],*Q1('reuse_clean','reuse_race',q=0,t=1)),
  G(HB,'hb_x',UX,*Q1('bcast_forms_srv','bcast_forms_cli','bcast_slow_srv','shut_srv','shut_cli',q=0,t=1)),
  G(HUD,'ud_x',['-DUNIX']+UF,*Q1('udp_send','udp_send_env','udp_both',q=1,t=3),S('udp_recv',q=0,t=2),*Q1('udp_close','udp_multi',q=0,t=2)),
])
HSSL=dict(kind='sim',src='h_ssl.cpp')
HST=dict(kind='sim',src='h_strand.cpp')
SN=['-DST_ASIO_SYNC_DISPATCH','-DST_ASIO_WANT_MSG_SEND_NOTIFY','-DST_ASIO_WANT_ALL_MSG_SEND_NOTIFY']
add('C37', note='TCP client and server links, UNIX domain links and UDP sockets that send (one or two threads) and receive at the same time on two or three service threads and then break in every listed way; all schedules up to the bound', assumptions=SIM_ASSUME, groups=[
  G(HST,'str',AM+SN,*Q1('strand_client','strand_server',q=1,t=3,w=2),*Q1('strand_udp',q=2,t=3)),
  G(HST,'str_b',AM+['-DST_ASIO_SYNC_DISPATCH','-DST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY'],*Q1('strand_client','strand_server',q=1,t=2)),
  G(HST,'str_d',AM+SN+['-DST_ASIO_DELAY_CLOSE=1'],*Q1('strand_client','strand_server','strand_udp',q=1,t=2)),
  G(HST,'str_u',['-DUNIX']+AM+SN,*Q1('strand_client','strand_server',q=1,t=2)),
])
add('C31', note='library client and library server over TLS 1.2 and 1.3 with each other over a network that cuts everything, and each of them with a raw TLS peer that breaks the handshake, an established link or its end in every listed way; one or two service threads; all schedules up to the bound; an OpenSSL connection must never be used by two threads at a time. Not claimed: a link with a blocked write on which the peer sends a damaged record may need a shutdown to end (Asio waits for the alert to be written)', assumptions=SIM_ASSUME+['pre-shared-key cipher suites (the certificates are OpenSSL\'s business)'], budget=dict(quick=90), groups=[
  G(HSSL,'ssl',AM,*Q1('tls_pair',q=0,t=1),*Q1('tls_net','tls_senders',w=2),*Q1('tls_fail_client','tls_fail_server',w=3),*Q1('tls_end_client','tls_end_server',w=6)),
  G(HSSL,'ssl_r',AM+['-DST_ASIO_REUSE_OBJECT'],*Q1('tls_pair','tls_fail_server','tls_end_server',q=0,t=1),*Q1('tls_senders',t=1)),
  G(HSSL,'ssl_d',AM+['-DST_ASIO_DELAY_CLOSE=1','-DST_ASIO_SYNC_DISPATCH'],*Q1('tls_pair','tls_fail_client','tls_fail_server','tls_end_client','tls_end_server',q=0,t=1),*Q1('tls_net','tls_senders',t=1)),
  G(HSSL,'ssl_s',AM+['-DST_ASIO_WANT_MSG_SEND_NOTIFY','-DST_ASIO_SYNC_SEND','-DST_ASIO_SYNC_RECV'],*Q1('tls_pair','tls_end_client','tls_end_server',q=0,t=1),*Q1('tls_net','tls_senders',t=1)),
])
HWS=dict(kind='sim',src='h_ws.cpp')
WSA=lambda q1=1,q0=0: (*Q1('ws_net','ws_senders',w=2),*Q1('ws_client_msgs'),*Q1('ws_server_msgs',q=q1,w=4),*Q1('ws_pair',q=q0,t=1,w=3),*Q1('ws_fail_client','ws_fail_server','ws_end_client','ws_end_server',q=q1,w=4),*Q1('ws_empty'))
WS0=(*Q1('ws_pair','ws_fail_client','ws_fail_server','ws_end_client','ws_end_server','ws_client_msgs','ws_server_msgs',q=0,t=1),*Q1('ws_net','ws_senders','ws_empty',t=1))
add('C30', note='library client and library server over WebSocket and WebSocket over TLS with each other over a network that cuts everything, and each of them with a raw WebSocket peer: messages of every size around the frame limits, fragmented, with control frames between them, together with the handshake; handshakes, established links and their ends broken in every listed way; one or two service threads; all schedules up to the bound; the stream must never be used by two threads at a time. Not claimed: when a peer that broke the protocol or sent a close frame keeps the connection, a shutdown may be needed to end the link (Beast waits for the peer)', assumptions=SIM_ASSUME, budget=dict(quick=100), groups=[
  G(HWS,'ws',AM,*WSA(1,1)),
  G(HWS,'wss',['-DWSS']+AM,*WSA(0,0)),
  G(HWS,'ws_r',AM+['-DST_ASIO_REUSE_OBJECT','-DST_ASIO_WEBSOCKET_BINARY=0'],*WS0),
  G(HWS,'ws_d',AM+['-DST_ASIO_DELAY_CLOSE=1','-DST_ASIO_SYNC_DISPATCH'],*WS0),
  G(HWS,'ws_s',AM+['-DST_ASIO_WANT_MSG_SEND_NOTIFY','-DST_ASIO_SYNC_SEND','-DST_ASIO_SYNC_RECV'],*WS0),
  G(HWS,'wss_r',['-DWSS','-DST_ASIO_REUSE_OBJECT']+AM,*WS0),
])
HF=dict(kind='sim',src='h_file.cpp')
FRB=['"-DST_ASIO_RECV_BUFFER_TYPE=std::vector<boost::asio::mutable_buffer>"','-DST_ASIO_SCATTERED_RECV_BUFFER','-D_FILE_OFFSET_BITS=64','-DST_ASIO_PASSIVE_RECV','-DST_ASIO_WANT_MSG_SEND_NOTIFY','-DST_ASIO_AVOID_AUTO_STOP_SERVICE']
add('C36', note='the file server and the file client of the repository over a virtual file system: with each other (two files of 11 sizes around the block size of 65536, one to three links, both directions, existing and new targets, everything cut, the progress timer at any time; files that cannot be opened or created), the server with a raw peer (all sequences of 2 (3) out of 27 right and wrong orders, one by one and at once), the client with a raw server (8 lengths x 6 kinds of replies); two or three service threads; all schedules up to the bound. Not claimed: input/output errors in the middle of a transfer and broken links (the protocol cannot report them)', assumptions=SIM_ASSUME+['the C library\'s streams (fopencookie over a virtual file system)'], groups=[
  G(HF,'file_s',FRB+['-DST_ASIO_RESTORE_OBJECT','-DST_ASIO_START_OBJECT_ID=500','-DST_ASIO_INPUT_QUEUE=non_lock_queue'],S('file_sizes',q=0,t=1),S('file_peer',q=0,t=0,part=dict(n=3)),*Q1('file_net','file_timer','file_burst',w=4),*Q1('file_refused'),S('file_reply',q=1,t=2)),
  G(HF,'file_c',FRB+['-DST_ASIO_DELAY_CLOSE=5'],*Q1('file_sizes','file_peer',q=0,t=1),*Q1('file_net','file_timer','file_refused','file_reply',w=2)),
  G(HF,'file_p',['-D_FILE_OFFSET_BITS=64','-DST_ASIO_PASSIVE_RECV','-DST_ASIO_WANT_MSG_SEND_NOTIFY','-DST_ASIO_AVOID_AUTO_STOP_SERVICE','-DST_ASIO_RESTORE_OBJECT'],*Q1('file_sizes','file_peer',q=0,t=1),*Q1('file_net','file_timer','file_refused',q=0,t=1)),
])
ORACLES = {
 'C01': 'the list of message bodies that was encoded', 'C02': 'the list of messages that was encoded', 'C03': 'an independent decoder that says "needs more", "message" or "malformed" after every byte, and ASan',
 'C04': 'an independent encoder and decoder', 'C05': 'std::string', 'C06': 'std::list for sequences; all sequential orders of the concurrent operations (linearizability by enumeration)',
 'C07': 'wire log of the virtual network: the multiset of accepted messages, each whole, in the order of each sender', 'C08': 'limits before each accepted message, reference queue', 'C09': 'each accepted message in exactly one of: wire + notification, on_send_error, discarded, still queued',
 'C10': 'messages the peer sent, in order, each accepted exactly once, at most one handler at a time', 'C11': 'buffered bytes never beyond limit plus one read; everything delivered at rest', 'C12': 'number of reads not above the number of requests, every request answered',
 'C13': 'the result against the wire log and notifications; no waiter at rest', 'C14': 'every message at exactly one consumer; no waiter at rest', 'C15': 'a reference timer table in virtual time',
 'C16': 'an automaton over the callbacks of a link (announced, alive, closed, freed), shadow memory', 'C17': 'messages sent by the peer before its end of stream, virtual time', 'C18': 'connection attempts at the socket interface against the configured policy, callbacks',
 'C19': 'a reference pool', 'C20': 'a fresh object; shadow memory; owner counts', 'C21': 'connections the peers made against links, vetoes and the maximum', 'C22': 'bytes on every link, per-link event log',
 'C23': 'per-service state automaton, threads left, sockets left open', 'C24': 'recomputed references of every io_context at every rest point', 'C25': 'count of running threads and executed work at rest', 'C26': 'datagram log of the virtual network',
 'C27': 'RFC 1928/1929 and SOCKS4(a) request bytes, link events', 'C28': 'a model in whole seconds of heartbeats sent and of absence', 'C29': 'sums recomputed from wire, messages and virtual time', 'C30': 'messages of the other side, callback automaton, at most one thread in the stream at a time',
 'C31': 'messages of the other side, callback automaton, at most one thread in the OpenSSL connection at a time', 'C32': 'snprintf with an unlimited buffer, ASan', 'C33': 'the log of the virtual functions', 'C34': 'as for the TCP and UDP properties', 'C36': 'the source file, the protocol comment, open file count', 'C37': 'overlap counter in every callback',
}
