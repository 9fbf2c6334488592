/* Configuration the checks build /repo/src with (what cmake detects on x86-64
   Linux with gcc; the best sinc converter is off as in the baseline build). */
#define PACKAGE "libsamplerate"
#define VERSION "0.2.2"
#define CPU_CLIPS_NEGATIVE 0
#define CPU_CLIPS_POSITIVE 0
#define HAVE_STDBOOL_H
#define HAVE_IMMINTRIN_H
#define HAVE_UNISTD_H
#define HAVE_VISIBILITY
#define ENABLE_SINC_FAST_CONVERTER
#define ENABLE_SINC_MEDIUM_CONVERTER
