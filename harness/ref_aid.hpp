// Registered provider / product table for AIDs, and the text for each.
#ifndef REF_AID_HPP
#define REF_AID_HPP
#include "vh.hpp"
#include "emv_fields.h"
struct AidRow { const char* rid; const char* pix; int scheme; int product; const char* text; };
// longest PIX first within one RID; "" = any PIX of that provider
static const AidRow aids[] = {
	{"A000000003", "1010", EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_CREDIT_DEBIT, "Visa Credit/Debit"}, {"A000000003", "2010", EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_ELECTRON, "Visa Electron"},
	{"A000000003", "2020", EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_VPAY, "V Pay"}, {"A000000003", "8010", EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_PLUS, "Visa Plus"}, {"A000000003", "", EMV_CARD_SCHEME_VISA, 0, "Visa"},
	{"A000000098", "", EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_USA_DEBIT, "Visa USA Debit"},
	{"A000000004", "1010", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_CREDIT_DEBIT, "Mastercard Credit/Debit"}, {"A000000004", "3060", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_MAESTRO, "Maestro"},
	{"A000000004", "6000", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_CIRRUS, "Mastercard Cirrus"}, {"A000000004", "2203", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_USA_DEBIT, "Mastercard USA Debit"}, {"A000000004", "", EMV_CARD_SCHEME_MASTERCARD, 0, "Mastercard"},
	{"A000000005", "", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_MAESTRO_UK, "Maestro UK"}, {"B012345678", "", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_TEST, "Mastercard Test Card"},
	{"A000000025", "", EMV_CARD_SCHEME_AMEX, EMV_CARD_PRODUCT_AMEX_CREDIT_DEBIT, "American Express Credit/Debit"}, {"A000000790", "", EMV_CARD_SCHEME_AMEX, EMV_CARD_PRODUCT_AMEX_CHINA_CREDIT_DEBIT, "American Express (China Credit/Debit)"},
	{"A000000152", "3010", EMV_CARD_SCHEME_DISCOVER, EMV_CARD_PRODUCT_DISCOVER_CARD, "Discover Card"}, {"A000000152", "4010", EMV_CARD_SCHEME_DISCOVER, EMV_CARD_PRODUCT_DISCOVER_USA_DEBIT, "Discover USA Debit"}, {"A000000152", "", EMV_CARD_SCHEME_DISCOVER, 0, "Discover"},
	{"A000000324", "", EMV_CARD_SCHEME_DISCOVER, EMV_CARD_PRODUCT_DISCOVER_ZIP, "Discover ZIP"},
	{"A000000042", "1010", EMV_CARD_SCHEME_CB, EMV_CARD_PRODUCT_CB_CREDIT_DEBIT, "Cartes Bancaires (CB) Credit/Debit"}, {"A000000042", "2010", EMV_CARD_SCHEME_CB, EMV_CARD_PRODUCT_CB_DEBIT, "Cartes Bancaires (CB) Debit"}, {"A000000042", "", EMV_CARD_SCHEME_CB, 0, "Cartes Bancaires (CB)"},
	{"A000000065", "", EMV_CARD_SCHEME_JCB, 0, "JCB"},
	{"A000000121", "4711", EMV_CARD_SCHEME_DANKORT, EMV_CARD_PRODUCT_DANKORT_VISADANKORT, "Visa/Dankort"}, {"A000000121", "4712", EMV_CARD_SCHEME_DANKORT, EMV_CARD_PRODUCT_DANKORT_JSPEEDY, "Dankort (J/Speedy)"}, {"A000000121", "", EMV_CARD_SCHEME_DANKORT, 0, "Dankort"},
	{"A000000333", "010101", EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_DEBIT, "UnionPay Debit"}, {"A000000333", "010102", EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_CREDIT, "UnionPay Credit"}, {"A000000333", "010103", EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_QUASI_CREDIT, "UnionPay Quasi-credit"},
	{"A000000333", "010106", EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_ELECTRONIC_CASH, "UnionPay Electronic Cash"}, {"A000000333", "010108", EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_USA_DEBIT, "UnionPay USA Debit"}, {"A000000333", "", EMV_CARD_SCHEME_UNIONPAY, 0, "UnionPay"},
	{"A000000337", "101000", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_STANDARD, "GIM-UEMOA Standard"}, {"A000000337", "101001", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_PREPAID_ONLINE, "GIM-UEMOA Prepaye Online"}, {"A000000337", "102000", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_CLASSIC, "GIM-UEMOA Classic"},
	{"A000000337", "102001", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_PREPAID_OFFLINE, "GIM-UEMOA Prepaye Possibile Offline"}, {"A000000337", "301000", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_RETRAIT, "GIM-UEMOA Retrait"}, {"A000000337", "601001", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_ELECTRONIC_WALLET, "GIM-UEMOA Porte Monnaie Electronique"}, {"A000000337", "", EMV_CARD_SCHEME_GIMUEMOA, 0, "GIM-UEMOA"},
	{"A000000359", "1010028001", EMV_CARD_SCHEME_DK, EMV_CARD_PRODUCT_DK_GIROCARD, "Deutsche Kreditwirtschaft (DK) Girocard"},
	{"A000000371", "", EMV_CARD_SCHEME_VERVE, 0, "Verve"},
	{"A000000384", "10", EMV_CARD_SCHEME_EFTPOS, EMV_CARD_PRODUCT_EFTPOS_SAVINGS, "eftpos (Australia) savings"}, {"A000000384", "20", EMV_CARD_SCHEME_EFTPOS, EMV_CARD_PRODUCT_EFTPOS_CHEQUE, "eftpos (Australia) cheque"}, {"A000000384", "", EMV_CARD_SCHEME_EFTPOS, 0, "eftpos (Australia)"},
	{"A000000524", "", EMV_CARD_SCHEME_RUPAY, 0, "RuPay"},
	{"A000000658", "1010", EMV_CARD_SCHEME_MIR, EMV_CARD_PRODUCT_MIR_CREDIT, "Mir Credit"}, {"A000000658", "2010", EMV_CARD_SCHEME_MIR, EMV_CARD_PRODUCT_MIR_DEBIT, "Mir Debit"}, {"A000000658", "", EMV_CARD_SCHEME_MIR, 0, "Mir"},
	{"A000000732", "", EMV_CARD_SCHEME_MEEZA, 0, "Meeza"},
};
static const size_t NA = sizeof aids / sizeof *aids;
static inline const AidRow* ref_aid(const Bytes& a) { std::string h = vh_hex(a); for (auto& r : aids) { std::string p = std::string(r.rid) + r.pix; if (h.compare(0, p.size(), p) == 0) return &r; } return NULL; }
static inline Bytes unhex(const std::string& s) { Bytes b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)strtoul(s.substr(i, 2).c_str(), 0, 16)); return b; }
static inline int ref_iad(const Bytes& a)
{
	size_t n = a.size(); if (!n) return EMV_IAD_FORMAT_INVALID;
	if (n == 32 && a[0] == 0x0F && (a[1] == 0xA5 || a[1] == 0xA6) && a[16] == 0x0F) return EMV_IAD_FORMAT_CCD;
	if (n >= 2 && (a[1] & 0xFA) == 0x10) { if (n == 18) return EMV_IAD_FORMAT_MCHIP4; if (n == 20 || n == 26 || n == 28) return EMV_IAD_FORMAT_MCHIP_ADVANCE; }
	if (n >= 7 && a[0] == 6 && a[3] == 3) { switch (a[2] >> 4) { case 0: return EMV_IAD_FORMAT_VSDC_0; case 1: return EMV_IAD_FORMAT_VSDC_1; case 3: return EMV_IAD_FORMAT_VSDC_3; } return EMV_IAD_FORMAT_INVALID; }
	if (n == 32 && a[0] == 0x1F && a[8] < 0x10) { switch (a[1] >> 4) { case 2: return EMV_IAD_FORMAT_VSDC_2; case 4: return EMV_IAD_FORMAT_VSDC_4; } return EMV_IAD_FORMAT_INVALID; }
	return EMV_IAD_FORMAT_UNKNOWN;
}
#endif
