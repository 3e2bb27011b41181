#pragma once
#define VERSION_MAJOR 0
#define VERSION_MINOR 4
#define VERSION_PATCH 3
#define VERSION_MINIPATCH ""
#define VERSION_FULL 0.4.3
#define VERSION_FULL_STRING "0.4.3"
#define GIT_COMMIT "sim"
#define GIT_COMMIT_DATE "sim"
#define GIT_BRANCH "sim"
