// Independent tables of ISO 7816-3/-4 texts: commands, status words, life
// cycle, ATR bytes.
#ifndef REF_ISO7816_HPP
#define REF_ISO7816_HPP
#include "ref_strings.hpp"
#include "ref_atr.hpp"
// ISO 7816-3 12.1.3: 1, 2 (short), 20 (extended) ... or 0
static inline int ref_case(const Bytes& b)
{
	size_t n = b.size(); if (n < 4) return 0; if (n == 4) return 1; if (n == 5) return 2;
	if (b[4]) return n == 5u + b[4] ? 3 : n == 6u + b[4] ? 4 : 0;
	if (n == 7) return 20; if (n < 7) return 0;
	size_t lc = b[5] * 256 + b[6]; return !lc ? 0 : n == 7 + lc ? 30 : n == 9 + lc ? 40 : 0;
}
struct InsRow { uint8_t ins; const char* name; };
static const InsRow INS_TABLE[] = {  // ISO 7816-4:2005 table 4.2
	{0x04, "DEACTIVATE FILE"}, {0x0C, "ERASE RECORD"}, {0x0E, "ERASE BINARY"}, {0x0F, "ERASE BINARY"}, {0x10, "PERFORM SCQL OPERATION"}, {0x12, "PERFORM TRANSACTION OPERATION"}, {0x14, "PERFORM USER OPERATION"},
	{0x20, "VERIFY"}, {0x21, "VERIFY"}, {0x22, "MANAGE SECURITY ENVIRONMENT"}, {0x24, "CHANGE REFERENCE DATA"}, {0x26, "DISABLE VERIFICATION REQUIREMENT"}, {0x28, "ENABLE VERIFICATION REQUIREMENT"}, {0x2A, "PERFORM SECURITY OPERATION"}, {0x2C, "RESET RETRY COUNTER"},
	{0x44, "ACTIVATE FILE"}, {0x46, "GENERATE ASYMMETRIC KEY PAIR"}, {0x70, "MANAGE CHANNEL"}, {0x82, "EXTERNAL AUTHENTICATE"}, {0x84, "GET CHALLENGE"}, {0x86, "GENERAL AUTHENTICATE"}, {0x87, "GENERAL AUTHENTICATE"}, {0x88, "INTERNAL AUTHENTICATE"},
	{0xA0, "SEARCH BINARY"}, {0xA1, "SEARCH BINARY"}, {0xA2, "SEARCH RECORD"}, {0xB0, "READ BINARY"}, {0xB1, "READ BINARY"}, {0xC0, "GET RESPONSE"}, {0xC2, "ENVELOPE"}, {0xC3, "ENVELOPE"}, {0xCA, "GET DATA"}, {0xCB, "GET DATA"},
	{0xD0, "WRITE BINARY"}, {0xD1, "WRITE BINARY"}, {0xD2, "WRITE RECORD"}, {0xD6, "UPDATE BINARY"}, {0xD7, "UPDATE BINARY"}, {0xDC, "UPDATE RECORD"}, {0xDD, "UPDATE RECORD"},
	{0xE0, "CREATE FILE"}, {0xE2, "APPEND RECORD"}, {0xE4, "DELETE FILE"}, {0xE6, "TERMINATE DF"}, {0xE8, "TERMINATE EF"}, {0xFE, "TERMINATE CARD USAGE"},
};
static inline RefText ref_iso_capdu(const Bytes& b)
{
	const RefText no = {false, ""}; if (b.size() < 4 || b[0] & 0x80) return no;
	static const char* const OCC[] = {"first", "last", "next", "previous"};
	int cs = ref_case(b); unsigned p1 = b[2], p2 = b[3];
	switch (b[1]) {
		case 0xA4: {
			if (cs != 2 && cs != 4) return no;
			Bytes d; if (cs == 4) d.assign(b.begin() + 5, b.end() - 1);
			if (!p1 && !p2 && (cs == 2 || d == Bytes{0x3F, 0x00})) return {true, "SELECT Master File"};
			if (cs == 2) return no;
			bool print = true; for (auto c : d) if (c < 0x20 || c > 0x7E) print = false;
			return {true, std::string("SELECT ") + OCC[p2 & 3] + " " + (print ? std::string(d.begin(), d.end()) : vh_hex(d))};
		}
		case 0xB2: case 0xB3: {
			if (b[1] == 0xB2 ? cs != 2 && cs != 20 : cs != 4 && cs != 40) return no;
			if (p1 == 0xFF) return no;
			bool num = p2 & 4; std::string rec = p1 == 0 ? "current record" : vh_fmt("record %s %u", num ? "number" : "identifier", p1), s = vh_fmt("READ RECORD from short EF %u, ", p2 >> 3);
			if (!num) return {true, s + OCC[p2 & 3] + " occurence of " + rec};
			switch (p2 & 3) { case 0: return {true, s + rec}; case 1: return {true, s + "all records from " + rec + " up to last"}; case 2: return {true, s + "all records from the last up to " + rec}; }
			return no;
		}
		case 0xDA: case 0xDB: {
			if (cs == 30) return {true, "PUT DATA"}; if (cs != 3) return no;
			if (b[1] == 0xDA) {
				if (p1 == 0 && p2 >= 0x40 && p2 < 0xFF) return {true, vh_fmt("PUT DATA for BER-TLV field %02X", p2)};
				if (p1 == 1) return {true, vh_fmt("PUT DATA for proprietary identifier %02X", p2)};
				if (p1 == 2 && p2 && p2 < 0xFF) return {true, vh_fmt("PUT DATA for SIMPLE-TLV field %02X", p2)};
				if (p1 >= 0x40) return {true, vh_fmt("PUT DATA for BER-TLV field %04X", p1 << 8 | p2)};
			} else {
				unsigned id = p1 << 8 | p2; if (id >= 1 && id <= 30) return {true, vh_fmt("PUT DATA for short EF %u", id)}; if (id == 0x3FFF) return {true, "PUT DATA for current DF"}; if (id) return {true, vh_fmt("PUT DATA for file %04X", id)};
			}
			return {true, "PUT DATA"};
		}
	}
	for (auto& t : INS_TABLE) if (t.ins == b[1]) return {true, t.name};
	return no;
}
// expected emv_capdu_get_string result and text
static inline std::pair<int, std::string> ref_any_capdu(const Bytes& b)
{
	if (b.size() < 4) return {-2, ""}; if (b[0] == 0xFF) return {1, ""};
	RefText t = b[0] & 0x80 ? ref_emv_capdu(b) : ref_iso_capdu(b); return {t.ok ? 0 : b[0] & 0x80 ? 2 : 3, t.text};
}
struct SwRow { uint16_t sw; const char* text; };
static const SwRow SW_TABLE[] = {  // ISO 7816-4:2005 tables 5 and 6
	{0x9000, "Normal"}, {0x6200, "State of non-volatile memory is unchanged"}, {0x6281, "Part of returned data may be corrupted"}, {0x6282, "End of file or record reached before reading Ne bytes"}, {0x6283, "Selected file deactivated"},
	{0x6284, "File control information not formatted according to ISO 7816-4:2005, 5.3.3"}, {0x6285, "Selected file in termination state"}, {0x6286, "No input data available from a sensor on the card"}, {0x6300, "State of non-volatile memory has changed"}, {0x6381, "File filled up by the last write"},
	{0x6400, "State of non-volatile memory is unchanged"}, {0x6401, "Immediate response required by card"}, {0x6500, "State of non-volatile memory has changed"}, {0x6581, "Memory failure"}, {0x6700, "Wrong length"},
	{0x6800, "Functions in CLA not supported"}, {0x6881, "Logical channel not supported"}, {0x6882, "Secure messaging not supported"}, {0x6883, "Last command of the chain expected"}, {0x6884, "Command chaining not supported"},
	{0x6900, "Command not allowed"}, {0x6981, "Command incompatible with file structure"}, {0x6982, "Security status not satisfied"}, {0x6983, "Authentication method blocked"}, {0x6984, "Reference data not usable"}, {0x6985, "Conditions of use not satisfied"}, {0x6986, "Command not allowed (no current EF)"}, {0x6987, "Expected secure messaging data objects missing"}, {0x6988, "Incorrect secure messaging data objects"},
	{0x6A00, "Wrong parameters P1-P2"}, {0x6A80, "Incorrect parameters in the command data field"}, {0x6A81, "Function not supported"}, {0x6A82, "File or application not found"}, {0x6A83, "Record not found"}, {0x6A84, "Not enough memory space in the file"}, {0x6A85, "Nc inconsistent with TLV structure"}, {0x6A86, "Incorrect parameters P1-P2"}, {0x6A87, "Nc inconsistent with parameters P1-P2"}, {0x6A88, "Referenced data or reference data not found"}, {0x6A89, "File already exists"}, {0x6A8A, "DF name already exists"},
	{0x6B00, "Wrong parameters P1-P2"}, {0x6D00, "Instruction code not supported or invalid"}, {0x6E00, "Class not supported"}, {0x6F00, "No precise diagnosis"},
};
static inline std::string ref_sw(uint8_t a, uint8_t b)
{
	unsigned sw = a << 8 | b; std::string t; for (auto& x : SW_TABLE) if (x.sw == sw) t = x.text;
	if (sw == 0x9000) return t; if (a == 0x61) return vh_fmt("Normal: %u data bytes remaining", b);
	if (a < 0x61 || (a > 0x6F && (a >> 4) != 9)) return "Invalid";
	if (a >> 4 == 9) return "Proprietary";
	bool alone = a == 0x67 || a == 0x6B || a == 0x6D || a == 0x6E || a == 0x6F; if (alone && b) return "Proprietary";
	if (t.empty()) {
		if ((a == 0x62 || a == 0x64) && b >= 2 && b <= 0x80) t = vh_fmt("Card-originated query of %u bytes", b);
		else if (a == 0x63 && b >> 4 == 0xC) t = vh_fmt("Counter is %u", b & 15);
		else if (a == 0x66) t = vh_fmt("Security error 0x%02X", b);
		else if (a == 0x6C) t = vh_fmt("Wrong Le field (%u data bytes available)", b);
		else t = "Unknown";
	}
	return (a < 0x64 ? "Warning: " : a < 0x67 ? "Execution error: " : "Checking error: ") + t;
}
static inline std::string ref_lcs(uint8_t v)
{
	if (v == 0) return "No information given"; if (v == 1) return "Creation state"; if (v == 3) return "Initialisation state"; if (v == 5 || v == 7) return "Operational state (activated)"; if (v == 4 || v == 6) return "Operational state (deactivated)"; if (v >= 12 && v <= 15) return "Termination state"; return "Proprietary";
}
static inline std::string ref_Y(const RefAtr& m, int i)
{
	std::string s; if (i > 4) return s;
	auto add = [&](const int* t, const char* n) { if (t[i] >= 0) s += (s.empty() ? "" : ",") + std::string(n) + std::to_string(i); };
	add(m.TA, "TA"); add(m.TB, "TB"); add(m.TC, "TC"); add(m.TD, "TD"); return "Y" + std::to_string(i) + "=" + s;
}
// expected text of one interface byte; false: none
static inline bool ref_atr_text(const Bytes& a, const RefAtr& m, char which, int i, std::string& s, bool& unsettled)
{
	unsettled = false; unsigned T = i >= 2 && m.TD[i - 1] >= 0 ? a[m.TD[i - 1]] & 15 : 99; const int* t = which == 'A' ? m.TA : which == 'B' ? m.TB : which == 'C' ? m.TC : m.TD; bool has = t[i] >= 0;
	if (which == 'D') { if (!has) return false; unsigned p = a[m.TD[i]] & 15; s = ref_Y(m, i + 1) + (p == 15 ? "; Global (T=15)" : "; Protocol T=" + std::to_string(p)); return true; }
	if (i >= 3) {
		if (!has) { s = "Unimplemented"; return true; }
		if ((T == 15 && m.amb_T15) || (T == 1 && m.amb_T1)) unsettled = true;
		if (which == 'A' && T == 15) {
			static const char* const C[] = {"Not supported", "State L", "State H", "No preference"}; s = std::string("Clock stop: ") + C[m.clock] + "; Class: "; std::string c;
			if (m.classes & 1) c = "A (5V)"; if (m.classes & 2) c += std::string(c.empty() ? "" : ", ") + "B (3V)"; if (m.classes & 4) c += std::string(c.empty() ? "" : ", ") + "C (1.8V)"; s += c;
		} else if (which == 'A' && T == 1) s = vh_fmt("IFSI=%u", m.IFSI);
		else if (which == 'B' && T == 15) s = m.spu == 0 ? "SPU not used" : m.spu == 1 ? "Standard usage of SPU" : "Proprietary usage of SPU";
		else if (which == 'B' && T == 1) s = vh_fmt("CWT=%llu; BWT=%llu", (unsigned long long)m.CWT, (unsigned long long)m.BWT);
		else if (which == 'C' && T == 1) s = m.edc ? "Cyclic Redundancy Check (CRC)" : "Longitudinal Redundancy Check (LRC)";
		else s = "Unimplemented";
		return true;
	}
	if (which == 'A' && i == 1) s = vh_fmt("Fi=%u; Di=%u; %u cycles/ETU @ max %.1fMHz; max %lu bit/s", m.Fi, m.Di, m.Fi / m.Di, m.fmax, (unsigned long)(m.fmax * 1000000 * m.Di / m.Fi));
	else if (which == 'A') s = !m.spec ? "Negotiable mode" : vh_fmt("Specific mode (%s); ETU%s; protocol T=%u", m.mut ? "mutable" : "immutable", m.implicit_ ? " is implicit" : "=Fi/Di", m.spec_proto);
	else if (which == 'B' && i == 1) s = m.TB[1] >= 0 && m.vpp ? vh_fmt("Vpp is connected; Vpp=%umV; Ipp=%umA", m.Vppc, m.Ipp) : "Vpp is not connected";
	else if (which == 'B') s = m.TB[1] >= 0 && m.TB[2] >= 0 && m.vpp ? vh_fmt("Vpp=%umV", m.Vpp) : "Vpp is not connected";
	else if (i == 1) s = vh_fmt("N=%u; GT=%u", m.N, m.GT);
	else s = vh_fmt("WI=%u; WT=%u", m.WI, m.WT);
	return true;
}
#endif
