#pragma once
#include <condition_variable>
#include <cstdint>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
namespace qclient {
template <class T, size_t BlockSize>
class WaitableQueue {
public:
  class Iterator {
  public:
    T* getItemBlockOrNull() {
      std::unique_lock<std::mutex> lock(q->mtx);
      while (q->blocking && !q->has(seq)) q->cv.wait(lock);
      return q->get(seq);
    }
    T& item() { std::unique_lock<std::mutex> lock(q->mtx); return *q->get(seq); }
    bool itemHasArrived() { std::unique_lock<std::mutex> lock(q->mtx); return q->has(seq); }
    void next() { seq++; }
    int64_t seqnum() const { return seq; }
    WaitableQueue* q;
    int64_t seq;
  };
  Iterator begin() { std::unique_lock<std::mutex> lock(mtx); Iterator it; it.q = this; it.seq = first; return it; }
  template <typename... A> int64_t emplace_back(A&&... a) {
    std::unique_lock<std::mutex> lock(mtx);
    int64_t s = first + (int64_t)items.size();
    items.emplace_back(new T(std::forward<A>(a)...));
    cv.notify_all();
    return s;
  }
  void pop_front() { std::unique_lock<std::mutex> lock(mtx); items.pop_front(); first++; }
  void setBlockingMode(bool v) { std::unique_lock<std::mutex> lock(mtx); blocking = v; cv.notify_all(); }
  size_t size() { std::unique_lock<std::mutex> lock(mtx); return items.size(); }
private:
  bool has(int64_t s) { return s - first < (int64_t)items.size(); }
  T* get(int64_t s) { return has(s) ? items[s - first].get() : nullptr; }
  std::mutex mtx;
  std::condition_variable cv;
  bool blocking = true;
  int64_t first = 0;
  std::deque<std::unique_ptr<T>> items;
};
}
