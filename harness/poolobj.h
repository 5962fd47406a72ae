// a minimal object for object_pool: the pool's own book keeping is explored without network links
#ifndef POOLOBJ_H_
#define POOLOBJ_H_
struct Obj
{
	typedef std::string in_msg_type; typedef const std::string in_msg_ctype; typedef std::string out_msg_type; typedef const std::string out_msg_ctype;
	boost::uint_fast64_t _id; bool obs; int serial, resets, started, shut;
	static int& next() {static int n; return n;}
	static char* dead() {static char d[64]; return d;}
	template<typename A> Obj(A& a) : _id(-1), obs(false), serial(next()++), resets(0), started(0), shut(0) {dead()[serial] = 0;}
	~Obj() {dead()[serial]++;}
	boost::uint_fast64_t id() const {return _id;}
	void id(boost::uint_fast64_t i) {_id = i;}
	bool is_equal_to(boost::uint_fast64_t i) const {return _id == i;}
	bool obsoleted() {return obs;}
	void reset() {++resets; obs = false;}
};
struct Pool : public st_asio_wrapper::object_pool<Obj>
{
	typedef st_asio_wrapper::object_pool<Obj> super;
	int creates = 0;
	Pool(st_asio_wrapper::service_pump& sp) : super(sp) {}
	using super::add_object; using super::del_object; using super::init_object_id; using super::change_object_id; using super::finalize;
	object_type create() {return create_object(*this);}
	virtual void on_create(object_ctype&) {++creates;}
	virtual bool init() {return true;}
	virtual void uninit() {}
	virtual void attach_io_context(boost::asio::io_context&, unsigned) {}
	virtual void detach_io_context(boost::asio::io_context&, unsigned) {}
};
#endif
