/* The C API as a C program sees it: everything here goes through the declarations of ebur128.h. */
#include "ebur128.h"
#include <stddef.h>
#include <string.h>

typedef ebur128_state S;

struct constant {
  const char* name;
  long value;
};
#define K(n) { #n, (long) (n) }
static const struct constant constants[] = {
  K(EBUR128_VERSION_MAJOR), K(EBUR128_VERSION_MINOR), K(EBUR128_VERSION_PATCH),
  K(EBUR128_UNUSED), K(EBUR128_LEFT), K(EBUR128_Mp030), K(EBUR128_RIGHT), K(EBUR128_Mm030),
  K(EBUR128_CENTER), K(EBUR128_Mp000), K(EBUR128_LEFT_SURROUND), K(EBUR128_Mp110),
  K(EBUR128_RIGHT_SURROUND), K(EBUR128_Mm110), K(EBUR128_DUAL_MONO), K(EBUR128_MpSC),
  K(EBUR128_MmSC), K(EBUR128_Mp060), K(EBUR128_Mm060), K(EBUR128_Mp090), K(EBUR128_Mm090),
  K(EBUR128_Mp135), K(EBUR128_Mm135), K(EBUR128_Mp180), K(EBUR128_Up000), K(EBUR128_Up030),
  K(EBUR128_Um030), K(EBUR128_Up045), K(EBUR128_Um045), K(EBUR128_Up090), K(EBUR128_Um090),
  K(EBUR128_Up110), K(EBUR128_Um110), K(EBUR128_Up135), K(EBUR128_Um135), K(EBUR128_Up180),
  K(EBUR128_Tp000), K(EBUR128_Bp000), K(EBUR128_Bp045), K(EBUR128_Bm045),
  K(EBUR128_SUCCESS), K(EBUR128_ERROR_NOMEM), K(EBUR128_ERROR_INVALID_MODE),
  K(EBUR128_ERROR_INVALID_CHANNEL_INDEX), K(EBUR128_ERROR_NO_CHANGE),
  K(EBUR128_MODE_M), K(EBUR128_MODE_S), K(EBUR128_MODE_I), K(EBUR128_MODE_LRA),
  K(EBUR128_MODE_SAMPLE_PEAK), K(EBUR128_MODE_TRUE_PEAK), K(EBUR128_MODE_HISTOGRAM),
};

/* the value of a constant of the header, or -1000 */
long shim_constant(const char* name) {
  size_t i;
  for (i = 0; i < sizeof(constants) / sizeof(*constants); ++i)
    if (!strcmp(constants[i].name, name)) return constants[i].value;
  return -1000;
}

void shim_version(int* a, int* b, int* c) { ebur128_get_version(a, b, c); }
void* shim_init(unsigned c, unsigned long r, int m) { return ebur128_init(c, r, m); }
void shim_destroy(void** st) { ebur128_destroy((S**) st); }
int shim_mode(void* st) { return ((S*) st)->mode; }
unsigned shim_channels(void* st) { return ((S*) st)->channels; }
unsigned long shim_samplerate(void* st) { return ((S*) st)->samplerate; }
int shim_set_channel(void* st, unsigned c, int v) { return ebur128_set_channel((S*) st, c, v); }
int shim_change_parameters(void* st, unsigned c, unsigned long r) { return ebur128_change_parameters((S*) st, c, r); }
int shim_set_max_window(void* st, unsigned long w) { return ebur128_set_max_window((S*) st, w); }
int shim_set_max_history(void* st, unsigned long h) { return ebur128_set_max_history((S*) st, h); }
int shim_add_short(void* st, const short* p, size_t n) { return ebur128_add_frames_short((S*) st, p, n); }
int shim_add_int(void* st, const int* p, size_t n) { return ebur128_add_frames_int((S*) st, p, n); }
int shim_add_float(void* st, const float* p, size_t n) { return ebur128_add_frames_float((S*) st, p, n); }
int shim_add_double(void* st, const double* p, size_t n) { return ebur128_add_frames_double((S*) st, p, n); }
int shim_global(void* st, double* o) { return ebur128_loudness_global((S*) st, o); }
int shim_global_multiple(void** st, size_t n, double* o) { return ebur128_loudness_global_multiple((S**) st, n, o); }
int shim_momentary(void* st, double* o) { return ebur128_loudness_momentary((S*) st, o); }
int shim_shortterm(void* st, double* o) { return ebur128_loudness_shortterm((S*) st, o); }
int shim_window(void* st, unsigned long w, double* o) { return ebur128_loudness_window((S*) st, w, o); }
int shim_range(void* st, double* o) { return ebur128_loudness_range((S*) st, o); }
int shim_range_multiple(void** st, size_t n, double* o) { return ebur128_loudness_range_multiple((S**) st, n, o); }
int shim_sample_peak(void* st, unsigned c, double* o) { return ebur128_sample_peak((S*) st, c, o); }
int shim_prev_sample_peak(void* st, unsigned c, double* o) { return ebur128_prev_sample_peak((S*) st, c, o); }
int shim_true_peak(void* st, unsigned c, double* o) { return ebur128_true_peak((S*) st, c, o); }
int shim_prev_true_peak(void* st, unsigned c, double* o) { return ebur128_prev_true_peak((S*) st, c, o); }
int shim_relative_threshold(void* st, double* o) { return ebur128_relative_threshold((S*) st, o); }
