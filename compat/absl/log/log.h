#ifndef VERIF_COMPAT_ABSL_LOG_LOG_H_
#define VERIF_COMPAT_ABSL_LOG_LOG_H_
#include "absl/log/check.h"
#define VERIF_LOG_INFO ::verif_compat::LogMessage(__FILE__, __LINE__).stream()
#define VERIF_LOG_WARNING VERIF_LOG_INFO
#define VERIF_LOG_ERROR VERIF_LOG_INFO
#define VERIF_LOG_FATAL ::verif_compat::FatalMessage(__FILE__, __LINE__, "").stream()
#define VERIF_LOG_DFATAL VERIF_LOG_FATAL
#define LOG(sev) VERIF_LOG_##sev
#endif
