/* emv_debug.h is not usable from C++ */
#ifndef SHIM_PRINT_H
#define SHIM_PRINT_H
#include <stddef.h>
#include <stdbool.h>
#include <stdint.h>
struct iso7816_atr_info_t; struct emv_tlv_t; struct emv_tlv_list_t; struct emv_app_t;
void print_buf(const char*, const void*, size_t);
void print_atr(const struct iso7816_atr_info_t*);
void print_capdu(const void*, size_t); void print_rapdu(const void*, size_t);
void print_ber_buf(const void*, size_t, const char*, unsigned int, bool); void print_emv_buf(const void*, size_t, const char*, unsigned int, bool);
void print_emv_tlv(const struct emv_tlv_t*); void print_emv_tlv_list(const struct emv_tlv_list_t*);
void print_emv_dol(const void*, size_t, const char*, unsigned int); void print_emv_tag_list(const void*, size_t, const char*, unsigned int);
void print_emv_app(const struct emv_app_t*);
extern const int shim_src[4], shim_level[4], shim_type[6];
void shim_print_debug(int verbose, unsigned ts, int src, int level, int type, const char* s, const void* b, size_t n);
#define SHIM_SRC_TTL shim_src[0]
#define SHIM_SRC_TAL shim_src[1]
#define SHIM_SRC_EMV shim_src[2]
#define SHIM_SRC_APP shim_src[3]
#define SHIM_LEVEL_ERROR shim_level[0]
#define SHIM_LEVEL_INFO shim_level[1]
#define SHIM_LEVEL_CARD shim_level[2]
#define SHIM_LEVEL_TRACE shim_level[3]
#define SHIM_TYPE_MSG shim_type[0]
#define SHIM_TYPE_DATA shim_type[1]
#define SHIM_TYPE_TLV shim_type[2]
#define SHIM_TYPE_CAPDU shim_type[3]
#define SHIM_TYPE_RAPDU shim_type[4]
#define SHIM_TYPE_ATR shim_type[5]
#endif
