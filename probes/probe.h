// Intrinsics of the abstract driver programs ("probes").  Probes are parsed and interpreted abstractly together with
// the library; they are never compiled to code or run.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

extern "C" {
uint8_t eip_u8(const char*);
uint16_t eip_u16(const char*);
uint32_t eip_u32(const char*);
uint64_t eip_u64(const char*);
int8_t eip_i8(const char*);
int16_t eip_i16(const char*);
int32_t eip_i32(const char*);
int64_t eip_i64(const char*);
int eip_int(const char*);
bool eip_bool(const char*);
float eip_f32(const char*);
double eip_f64(const char*);
void eip_assume(bool);
int eip_choose(int n);
void eip_mark(const char*);
}
// byte vectors of unknown length (at most max) / of length n; unknown contents
std::vector<uint8_t> eip_bytes(const char* name, size_t max = 70000);
std::vector<uint8_t> eip_bytes_n(const char* name, size_t n);
std::vector<uint16_t> eip_words(const char* name, size_t max = 70000);
std::vector<uint16_t> eip_words_n(const char* name, size_t n);
std::string eip_string(const char* name, size_t max = 70000);
// a listener of the user
template <class F> std::function<F> eip_callback(const char* name);
// record a value of the analysed program
template <class T> void eip_out(const char* tag, const T& v);
// hand over to the environment of the check
template <class... A> void eip_hook(const char* what, const A&... a);
template <class R, class... A> R eip_ask(const char* what, const A&... a);
