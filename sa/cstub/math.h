#ifndef STUB_MATH_H
#define STUB_MATH_H
#define M_PI 3.14159265358979323846
#define M_PI_2 1.57079632679489661923
#define HUGE_VAL 1e400
#define INFINITY (1e40f)
double exp(double), log(double), sqrt(double), pow(double,double), fabs(double), sin(double), cos(double), tan(double),
 floor(double), ceil(double), round(double), rint(double), hypot(double,double), atan2(double,double), fmax(double,double),
 fmin(double,double), log10(double), atan(double), acos(double), asin(double), fmod(double,double), exp2(double), trunc(double);
float expf(float), logf(float), sqrtf(float), powf(float,float), fabsf(float), sinf(float), cosf(float), floorf(float),
 ceilf(float), roundf(float), hypotf(float,float), fmaxf(float,float), fminf(float,float);
long lround(double), lrint(double), lroundf(float);
int isfinite(double), isnan(double), isinf(double);
#endif
