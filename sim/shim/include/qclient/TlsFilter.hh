// Simulated TLS: a keyed stream transformation with the filter interface of qclient. It keeps the
// property which matters to the code under test: plaintext bytes that bypass the filter are not
// valid TLS records, and records are only produced through send().
#pragma once
#include <functional>
#include <string>
namespace qclient {
struct TlsConfig {
  bool active = false;
  std::string certificatePath, keyPath, chainPath, keyPassword;
};
enum class FilterType { SERVER, CLIENT };
struct RecvStatus {
  RecvStatus() {}
  RecvStatus(bool a, int e, int b) : connectionAlive(a), errcode(e), bytesRead(b) {}
  bool connectionAlive = false;
  int errcode = 0;
  int bytesRead = 0;
};
typedef std::function<RecvStatus(char*, int, int)> RecvFunction;
typedef std::function<int(const char*, int)> SendFunction;
class TlsFilter {
public:
  TlsFilter(const TlsConfig& c, const FilterType& t, RecvFunction r, SendFunction s) : cfg(c), type(t), recvFn(r), sendFn(s) {}
  // record: 0x17 len_hi len_lo bytes^0x5a
  int send(const char* b, int n) {
    int off = 0;
    while (off < n) {
      int k = n - off > 16000 ? 16000 : n - off;
      std::string rec;
      rec += (char)0x17; rec += (char)(k >> 8); rec += (char)(k & 255);
      for (int i = 0; i < k; i++) rec += (char)(b[off + i] ^ 0x5a);
      int rc = sendFn(rec.data(), (int)rec.size());
      if (rc < 0) return rc;
      off += k;
    }
    return n;
  }
  RecvStatus recv(char* b, int n, int timeout) {
    for (;;) {
      if (!plain.empty()) {
        int k = (int)plain.size() < n ? (int)plain.size() : n;
        for (int i = 0; i < k; i++) b[i] = plain[i];
        plain.erase(0, k);
        return RecvStatus(true, 0, k);
      }
      char tmp[4096];
      RecvStatus st = recvFn(tmp, sizeof tmp, timeout);
      if (!st.connectionAlive || st.bytesRead <= 0) return st;
      raw.append(tmp, st.bytesRead);
      for (;;) {
        if (raw.size() < 3) break;
        if (raw[0] != 0x17) return RecvStatus(false, -1, 0);
        size_t k = ((unsigned char)raw[1] << 8) | (unsigned char)raw[2];
        if (raw.size() < 3 + k) break;
        for (size_t i = 0; i < k; i++) plain += (char)(raw[3 + i] ^ 0x5a);
        raw.erase(0, 3 + k);
      }
    }
  }
  int close(int) { return 0; }
private:
  TlsConfig cfg;
  FilterType type;
  RecvFunction recvFn;
  SendFunction sendFn;
  std::string raw, plain;
};
}
