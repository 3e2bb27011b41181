// Simulated subset of asio (the parts netio/AsioPoller and Link use) over the simulated network.
#pragma once
#include <system_error>
#include <functional>
#include <memory>
#include <string>
#include <deque>
namespace asio {
typedef std::error_code error_code;
struct mutable_buffer { mutable_buffer(void* p, size_t n) : data(p), size(n) {} void* data; size_t size; };
struct const_buffer { const void* data; size_t size; };
inline const_buffer buffer(const void* p, size_t n) { return const_buffer{p, n}; }
inline mutable_buffer buffer(void* p, size_t n) { return mutable_buffer(p, n); }
namespace detail {
struct Ctx;
struct Sock;
struct Acc;
typedef std::shared_ptr<Sock> SockPtr;
std::shared_ptr<Ctx> newCtx();
void run(const std::shared_ptr<Ctx>& c);
void stop(const std::shared_ptr<Ctx>& c);
void closeCtx(const std::shared_ptr<Ctx>& c);
}
class io_context {
public:
  io_context() : c(detail::newCtx()) {}
  ~io_context() { detail::closeCtx(c); }
  io_context(const io_context&) = delete;
  size_t run() { detail::run(c); return 0; }
  void stop() { detail::stop(c); }
  std::shared_ptr<detail::Ctx> c;
};
struct socket_base {
  struct reuse_address { explicit reuse_address(bool) {} };
  enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
  enum wait_type { wait_read, wait_write, wait_error };
};
namespace ip {
struct v6_only { explicit v6_only(bool) {} };
class tcp {
public:
  static tcp v4() { return tcp{4}; }
  static tcp v6() { return tcp{6}; }
  int ver;
  struct endpoint {
    endpoint() {}
    endpoint(tcp p, int port_) : ver(p.ver), port(port_) {}
    int ver = 4, port = 0;
    std::string host;
  };
  class socket : public socket_base {
  public:
    explicit socket(io_context& c) : ctx(c.c) {}
    socket(socket&& o) noexcept : ctx(o.ctx), s(std::move(o.s)) { o.s = nullptr; }
    socket& operator=(socket&& o) noexcept;
    ~socket();
    void non_blocking(bool, error_code& ec);
    endpoint remote_endpoint(error_code& ec);
    void async_wait(wait_type, std::function<void(const error_code&)> h);
    size_t receive(const mutable_buffer& b, int flags, error_code& ec);
    int native_handle();
    void shutdown(shutdown_type, error_code& ec);
    std::shared_ptr<detail::Ctx> ctx;
    detail::SockPtr s;
  };
  class resolver {
  public:
    explicit resolver(io_context& c) : ctx(c.c) {}
    struct entry { std::string h; std::string host_name() const { return h; } };
    class iterator {
    public:
      iterator() {}
      explicit iterator(const std::string& h) : e(new entry{h}) {}
      bool operator!=(const iterator& o) const { return e != o.e; }
      bool operator==(const iterator& o) const { return e == o.e; }
      entry* operator->() const { return e.get(); }
      std::shared_ptr<entry> e;
    };
    void async_resolve(const endpoint& ep, std::function<void(const error_code&, iterator)> h);
    std::shared_ptr<detail::Ctx> ctx;
  };
  class acceptor : public socket_base {
  public:
    explicit acceptor(io_context& c);
    ~acceptor();
    void open(tcp p, error_code& ec);
    template <class O> void set_option(const O&) {}
    template <class O> void set_option(const O&, error_code& ec) { ec = error_code(); }
    void bind(const endpoint& e);
    void listen();
    void async_accept(socket& s, std::function<void(const error_code&)> h);
    void close();
    std::shared_ptr<detail::Acc> a;
  };
};
}
size_t write(ip::tcp::socket& s, const const_buffer& b, error_code& ec);
inline size_t write(ip::tcp::socket& s, const mutable_buffer& b, error_code& ec) { return write(s, const_buffer{b.data, b.size}, ec); }
}
