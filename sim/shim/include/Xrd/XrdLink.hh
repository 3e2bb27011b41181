#pragma once
class XrdLink {
public:
  const char* Host() { return "xrd"; }
  int Recv(char*, int, int) { return -1; }
  int Send(const char*, int) { return -1; }
  int Close(int = 0) { return 0; }
};
