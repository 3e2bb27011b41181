#pragma once
#define XrdVERSION "v5.0.0-sim"
