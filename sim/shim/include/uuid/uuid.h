#pragma once
typedef unsigned char uuid_t[16];
extern "C" {
void uuid_generate_random(uuid_t);
void uuid_generate(uuid_t);
void uuid_generate_time(uuid_t);
void uuid_unparse(const uuid_t, char*);
void uuid_unparse_lower(const uuid_t, char*);
}
