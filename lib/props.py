#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


p("C01", "BER decoding is exact for every byte string",
  "For every byte string, BER tag, TLV, iterator and object-identifier decoding either yields exactly the tag, class, constructed flag, length, value position, components and number of consumed bytes that X.690 defines for it (tags and definite lengths of up to 4 octets, definite or indefinite length), or rejects it because it is truncated, inconsistent or too large for the result. Iterating decodes every element of a well-formed sequence exactly once, in order, and then reports the end of data.",
  ["inputs"], "all byte strings given to the BER tag/TLV/iterator/OID decoders",
  "Existing tests decode a few hand-made valid EMV records; the encodings (lengths at octet boundaries, nested indefinite forms, truncation at each offset) are unbounded.",
  ["src/iso8825_ber.c", "src/iso8825_ber.h"],
  [("tag/length octet loops and bounds", "iso8825_ber_tag_decode, iso8825_ber_decode"), ("end-of-content search", "iso8825_ber_decode"), ("subidentifier loop", "iso8825_ber_oid_decode")])

p("C02", "TLV lists are faithful ordered owned sequences",
  "Any history of pushing, popping, finding, appending, clearing and parsing behaves like an ordered sequence of (tag, flags, private copy of the value): order and contents are preserved, find returns the first match, duplicate detection is exact, append moves all fields and empties the source, and clearing releases everything exactly once. Parsing BER data adds every primitive field found at any nesting depth in encoding order, omits templates, and reports malformed data as an error.",
  ["histories", "inputs"], "all operation sequences over several lists and all encoded inputs",
  "Tests use lists only incidentally through a few fixed flows and never check ownership, order after mixed operations, or leaks.",
  ["src/emv_tlv.c", "src/emv_tlv.h"],
  [("front/back list maintenance", "emv_tlv_list_push/pop/append/clear"), ("recursive flattening", "emv_tlv_parse"), ("deep copy", "emv_tlv_alloc")])

p("C03", "DOL processing builds exactly the data the card asked for",
  "For every data object list and set of data sources, the computed length is the sum of the requested lengths, and the built data is the concatenation, in DOL order, of each object's value taken from the first source containing it, padded or truncated to the requested length by the EMV Book 3 section 5.4 rules (terminal numeric data right-justified, other data left-justified, zero padded), with zeros for absent objects. Malformed lists and output buffers that are too small are rejected, and nothing is written beyond the requested output.",
  ["inputs", "configurations"], "all DOL encodings, all sets/orders of sources and all output buffer sizes",
  "Tests build data for two hand-made DOLs; padding/truncation depends on tag format, requested and actual lengths and source precedence.",
  ["src/emv_dol.c", "src/emv_dol.h", "src/emv_tlv.c"],
  [("iteration over (tag,length) entries", "emv_dol_itr_next"), ("format dependent padding/truncation", "emv_dol_build_data"), ("length sum", "emv_dol_compute_data_length"), ("terminal format n table", "emv_tlv_is_terminal_format_n")])

p("C04", "T=0 TPDU exchanges deliver the command and reassemble the response",
  "In TPDU mode, for every command APDU and every sequence of procedure bytes a conforming card may use (whole or byte-by-byte transfer of command data, 61xx GET RESPONSE chains, 6Cxx wrong-length corrections, warning and final status words), the card receives every command header and data byte exactly once and in order, and the caller receives the concatenated response data followed by the final status word. Every response data buffer bound is respected and malformed card behaviour is reported as an error.",
  ["inputs", "histories"], "all command APDUs (cases 1-4) and all conforming and non-conforming card reply sequences",
  "Tests replay a dozen scripted exchanges; procedure-byte sequences, chain lengths and sizes are unbounded.",
  ["src/emv_ttl.c", "src/iso7816_apdu.h"],
  [("procedure byte state machine", "emv_ttl_trx (CARDREADER_MODE_TPDU)"), ("GET RESPONSE / re-issue with Le", "emv_ttl_trx"), ("response accumulation", "emv_ttl_trx")])

p("C05", "Commands are encoded exactly and responses are split faithfully",
  "For every argument, the transport commands (SELECT by DF name first/next, READ RECORD, GET PROCESSING OPTIONS) hand the reader exactly the ISO 7816 command APDU that encodes the request, and reject arguments that cannot be encoded without sending anything. On success the caller gets exactly the response data bytes and status word the card returned, never more than its buffer holds; on reader failure or a response shorter than a status word the call reports an error.",
  ["inputs", "fault_sequences"], "all command arguments, all card responses and reader failures, for APDU mode readers",
  "Tests check a handful of arguments and benign replies; boundaries (record/SFI ranges, 0/1/255-byte data, buffer sizes) and faults are not covered.",
  ["src/emv_ttl.c", "src/iso7816_apdu.h", "src/iso7816.c"],
  [("APDU construction", "emv_ttl_select_by_df_name etc"), ("response split", "emv_ttl_* result handling")])

p("C06", "Candidate list holds exactly the mutually supported applications",
  "For every conforming card, building the candidate list yields exactly the applications that both the terminal's AID configuration (exact or partial match as configured) and the card's PSE directory or, if that yields nothing usable, AID selection identify, each with its AID, label, preferred name and priority, ordered by priority then card order, without entries the card blocked or that are malformed. When the card is blocked or unusable the reported error and, when nothing is in common, the outcome are the ones EMV Book 1 section 12 prescribes.",
  ["inputs", "configurations"], "all card application layouts (PSE present or not, directory records, partial names, blocked files) and terminal configurations",
  "Tests script about ten cards; the space of directory contents, status words, priorities and configurations is unbounded.",
  ["src/emv.c", "src/emv_tal.c", "src/emv_app.c"],
  [("PSE directory traversal", "emv_tal_read_pse"), ("list of AIDs selection incl. SELECT next", "emv_tal_find_supported_apps"), ("priority sort and filter", "emv_app_list_*, emv_build_candidate_list")])

p("C07", "Application selection acts on exactly the chosen application",
  "Selecting the n-th candidate sends SELECT for that candidate's AID, removes exactly that candidate from the list, and on success makes the application described by the card's FCI the selected one with the remaining candidates unchanged. On any failure no application stays selected, the outcome tells whether other candidates remain to be tried, and remaining candidates keep their order and content.",
  ["inputs", "histories"], "all candidate lists, indexes and card responses, and sequences of selections",
  "Tests cover a few fixed lists and responses; the list/index/response product and repeated selection after failures is not covered.",
  ["src/emv.c", "src/emv_tal.c", "src/emv_app.c"],
  [("candidate removal and outcome", "emv_select_application"), ("FCI validation", "emv_tal_select_app, emv_app_create_from_fci")])

p("C08", "Application initiation sends the right PDOL data and records the answer",
  "Initiating application processing sends GET PROCESSING OPTIONS whose data is exactly the tag 83 template of the card's PDOL filled from parameters, configuration and terminal data (or the empty template without PDOL), with freshly initialised terminal data. For every valid format 1 or format 2 answer the context ends up with the application data followed by the answer's fields including AIP and AFL; for every invalid answer an error or outcome is reported and previously obtained card data is not corrupted.",
  ["inputs", "configurations"], "all PDOLs, data sources, and card answers to GET PROCESSING OPTIONS",
  "Tests cover two PDOLs and a few answers; malformed templates, lengths and status words are unbounded.",
  ["src/emv.c", "src/emv_tal.c", "src/emv_dol.c"],
  [("PDOL build", "emv_initiate_application_processing"), ("format 1 / format 2 parsing", "emv_tal_parse_gpo_response")])

p("C09", "Application data reading follows the AFL exactly",
  "For every AFL the card provides, exactly the listed records are read, each once and in AFL order, and the fields of all records are added to the card data in order; a record that is listed for offline data authentication but is not coded as required for it is reported as such. Malformed AFLs or records, duplicate fields, missing mandatory fields or card errors end processing with the prescribed error or outcome and leave the card data as it was before.",
  ["inputs"], "all AFLs, record contents and status words",
  "Tests read a few fixed AFLs; AFL entry validation, record templates and redundancy rules are combinatorial.",
  ["src/emv.c", "src/emv_tal.c", "src/emv_fields.c"],
  [("AFL iteration", "emv_afl_itr_next"), ("record reading and template checks", "emv_tal_read_sfi_records / emv_tal_read_afl_records"), ("redundancy and mandatory checks", "emv_read_application_data")])

p("C10", "A hostile or failing card or reader never corrupts or hangs the terminal",
  "Whatever bytes, lengths, status words or transport errors the card and reader return at any step, in APDU or TPDU mode, the transaction steps complete after a bounded number of exchanges with a defined result, without memory errors, use of uninitialised data or leaks, and the context can afterwards be cleared or used for a new transaction.",
  ["inputs", "fault_sequences", "histories"], "all reply sequences of a card/reader to all transaction steps",
  "Tests only use scripted well-behaved emulators that assert the expected command; arbitrary reply sequences are unbounded.",
  ["src/emv.c", "src/emv_tal.c", "src/emv_ttl.c", "src/emv_app.c", "src/emv_tlv.c"],
  [("length/status validation of every reply", "emv_ttl_*, emv_tal_*"), ("loops driven by card replies", "emv_tal_read_pse, emv_tal_find_supported_apps, emv_ttl_trx"), ("cleanup paths", "emv_ctx_*, emv_*_list_clear")])

p("C11", "Memory allocation failure is reported and leaks nothing",
  "If any single memory allocation fails during any kernel operation (building lists, parsing, selecting, initiating, reading, data object list building), the operation reports an error instead of success, crashes or silent data loss (when building the candidate list, an application for which memory is insufficient may instead be left out), and after the caller releases its context and lists no memory is leaked or freed twice.",
  ["fault_sequences"], "every allocation made during every operation of representative and random transactions, failing in turn",
  "Tests never make an allocation fail.",
  ["src/emv.c", "src/emv_tal.c", "src/emv_app.c", "src/emv_tlv.c"],
  [("NULL checks after malloc", "emv_tlv_alloc, emv_app_*"), ("cleanup on error paths", "emv_tal_*, emv_*")])

p("C12", "A context used for many transactions behaves like a fresh one",
  "Repeating transaction steps on one context, in any order of success, failure and retry, and with different cards, gives the same observable results (commands sent, return values, lists, selected application data) as the same steps on a freshly initialised context with the same configuration; configuration and transaction parameters supplied by the caller are never altered.",
  ["histories"], "all sequences of transactions and retries on one context",
  "Tests run each scenario once or clear everything between scenarios.",
  ["src/emv.c", "src/emv.h"],
  [("clearing of per-transaction lists", "emv_build_candidate_list, emv_select_application, emv_initiate_application_processing, emv_read_application_data, emv_ctx_reset/clear")])

p("C13", "ATR parsing is exact and EMV acceptance rules are enforced",
  "For every byte string, ATR parsing either rejects it (bad TS, truncation, wrong check character) or yields exactly the interface bytes, global and protocol parameters, historical bytes and status that ISO 7816-3/-4 define for it, including defaults for absent bytes. The EMV acceptance check accepts or rejects a parsed ATR exactly per the EMV contact interface rules.",
  ["inputs"], "all ATR byte strings",
  "Tests parse a few fixed ATRs; presence masks of TA/TB/TC/TD combinations and historical byte layouts are combinatorial.",
  ["src/iso7816.c", "src/iso7816.h", "src/iso7816_compact_tlv.c", "src/emv.c"],
  [("interface byte walk", "iso7816_atr_parse"), ("EMV rules", "emv_atr_parse"), ("COMPACT-TLV", "iso7816_compact_tlv_*")])

p("C14", "AFL, CVM list, IAD and AID decoders return exactly the encoded fields",
  "For every byte string, the Application File Locator and CVM List decoders either reject it as malformed by the EMV rules or return exactly the encoded entries, each once and in order, with amounts, codes and conditions equal to the encoded bits. IAD format detection and AID classification are exact: an IAD is assigned a format only if it has that format's length and fixed bytes, and AID classification returns the scheme and product for every AID of a known registered provider and nothing for others.",
  ["inputs"], "all values of the decoded fields",
  "Tests check a few fixed lists and AIDs.",
  ["src/emv_fields.c", "src/emv_fields.h"],
  [("entry validation", "emv_afl_itr_next, emv_cvmlist_itr_*"), ("AID tables", "emv_aid_get_info"), ("IAD format detection", "emv_iad_get_format")])

p("C15", "Numeric and text conversions are exact and never silently wrong",
  "Conversions between integers or ASCII text and EMV formats n, cn, b, an and ans reproduce the value exactly for every value and buffer size: digits, padding, justification and filtering of characters follow EMV Book 3 section 4.3, encoding then decoding returns the original, a field too short for all digits keeps the leading (cn) or trailing (n) ones, and numbers too large for the result or characters outside the format are reported instead of wrapping around or being misread.",
  ["inputs"], "all values, digit strings and buffer sizes",
  "Tests convert a handful of strings; overflow and boundary digits are not sampled.",
  ["src/emv_tlv.c", "src/emv_strings.c"],
  [("digit packing/unpacking", "emv_uint_to_format_n, emv_format_n_to_uint, emv_str_to_format_cn, emv_str_to_format_n"), ("character filters", "emv_format_ans_*")])

p("C16", "Text decoding of ISO 8859 data is correct UTF-8 within the buffer",
  "For every supported ISO 8859 code page and every byte string, conversion that succeeds yields the UTF-8 encoding of exactly those characters (characters the code page does not define may be left out), truncated only at the end when the buffer is too small, always NUL-terminated and valid UTF-8; unsupported code pages are reported as such.",
  ["inputs", "configurations"], "all code pages, byte strings and buffer sizes",
  "The test converts one sample per code page into an ample buffer.",
  ["src/iso8859_boost.cpp", "src/iso8859.h", "src/iso8859_iconv.c", "src/iso8859_simple.c"],
  [("conversion and copy", "iso8859_to_utf8")])

p("C17", "Every formatter stays within its buffer and terminates its text",
  "For every input and every output buffer size, each text-producing function writes only inside the buffer it was given, reads only inside its inputs, leaves a NUL-terminated string whenever it reports success, never returns uninitialised text, a smaller buffer only ever yields a shortened form of the full text or an error, and an absent value or an empty buffer is never accessed.",
  ["inputs", "configurations"], "all field values and lengths and all buffer sizes of all string functions",
  "Tests use large fixed buffers and valid values.",
  ["src/emv_strings.c", "src/iso7816_strings.c", "src/emv_tlv.c", "tools/print_helpers.c"],
  [("string list helper", "emv_str_list_*, iso7816_str_list_*"), ("length checks of each field", "emv_*_get_string, iso7816_*_get_string")])

p("C18", "Bit-field and code decoders report exactly the bits that are set",
  "For every value of the bit-mapped and coded EMV fields (terminal type and capabilities, AIP, AUC, CVM list and results, TVR, TSI, form factor, TTQ, CTQ, cardholder and issuer fields, IAD, and so on) the text lists exactly the meanings EMV and the payment schemes assign to the bits or codes that are set, in byte and bit order, flags bits that are reserved for future use, and contains nothing for bits that are clear.",
  ["inputs"], "all values of each bit-mapped or coded field",
  "The stable tests do not execute these decoders at all (the emv-decode tests need a data file that is absent) and sample single values otherwise.",
  ["src/emv_strings.c", "src/emv_strings.h", "src/emv_fields.h"],
  [("bit to text tables", "emv_*_get_string_list, emv_*_get_string")])

p("C19", "TLV annotation names every known field correctly and shows its value",
  "For every EMV tag and value, the annotation gives the tag's name, description and format as defined by EMV and scheme specifications (nothing for unknown tags), and the value text, if any, is the correct decoding of exactly that value: numbers digit by digit, text character by character, dates, times, countries, currencies, languages, AIDs and codes resolved to their meaning.",
  ["inputs"], "all tags and all values of each field",
  "The stable tests do not execute the annotation for nearly all tags.",
  ["src/emv_strings.c", "src/emv_tags.h"],
  [("per tag switch", "emv_tlv_get_info"), ("value decoders", "emv_*_get_string")])

p("C20", "ISO 7816 texts describe exactly the decoded bytes",
  "For every command APDU, status word, ATR interface byte, historical byte object, life cycle and capability value, the textual description states exactly the instruction, parameters, class, meaning and bits those bytes encode per ISO 7816, and unknown or invalid values are reported as such rather than misdescribed.",
  ["inputs"], "all APDUs, status words and ATR bytes",
  "No stable test executes these texts.",
  ["src/iso7816_strings.c", "src/iso7816.c", "src/emv_strings.c"],
  [("command and status decoding", "iso7816_capdu_get_string, iso7816_sw1sw2_get_string, iso7816_atr_*_get_string"), ("APDU case detection", "iso7816_apdu_case")])

p("C21", "Country, currency, language and MCC lookups agree with the data files",
  "After initialisation, every country, currency, language and merchant category code lookup returns exactly the name the data files give for that code and nothing for codes they do not contain, and the texts of fields that carry such codes are those names; before initialisation lookups find nothing; initialisation from missing or malformed files reports failure, crashes nothing and never makes a lookup give a name that no file gives; and initialising again from files that give the same names leaves texts already returned intact.",
  ["inputs", "configurations", "histories"], "all codes, all data file contents and initialisation histories",
  "The tests look up about five codes with the installed files.",
  ["src/isocodes_lookup.cpp", "src/mcc_lookup.cpp"],
  [("JSON traversal and maps", "isocodes_init, mcc_init"), ("lookups", "isocodes_lookup_*, mcc_lookup")])

p("C22", "emv-decode and the field printers print exactly what the data says",
  "For every input of every emv-decode mode (hex text in any case and spacing, or bytes on standard input), the output is exactly the decoding of that input: every field's tag, name, length, bytes and decoded value text, nested fields indented below their template, data object and tag lists, ATR and status word details, code names. With --ignore-padding, invalid data shorter than a cipher block at the end of block aligned input is shown as padding; other undecodable remainders are reported with their offset and bytes. Input that is not hex, is incomplete or contradictory fails with a non-zero exit; input whose value cannot be decoded is reported on standard error with no decoding printed. Neither the program nor the printing functions it shares with emv-tool ever crash or read outside the data.",
  ["inputs", "configurations"], "all command lines and encoded inputs, up to a nesting depth the stack can hold",
  "The stable suite runs only two of the forty-five emv-decode invocations.",
  ["tools/emv-decode.c", "tools/print_helpers.c"],
  [("argument parsing", "parse_hex, load_from_file and option handling of emv-decode"), ("recursive printing", "print_emv_buf_internal, print_ber_buf_internal, print_emv_dol, print_emv_tag_list"), ("structured printing", "print_atr, print_emv_debug_verbose, print_emv_tlv_list")])

p("C23", "Debug tracing delivers exactly the requested events and changes nothing",
  "For every source mask, level and function given to emv_debug_init, also when changed between or during events, an event reaches the function exactly when its source is in the mask, its level is at or below the configured level and its kind is not compiled out: once, in order, with its source, level, type, formatted text (up to the 1023 characters that fit), data and a current timestamp. Without a function or with level none nothing is delivered. During transactions the C-APDU, R-APDU, C-TPDU, R-TPDU and ATR events carry exactly the bytes exchanged, and the kernel's results and card commands are the same whatever the configuration.",
  ["configurations", "inputs"], "all debug configurations, messages and traced operations",
  "The test checks a few settings for a few messages; no test traces a transaction.",
  ["src/emv_debug.c", "src/emv_debug.h", "src/emv_ttl.c", "src/emv_tal.c", "src/emv.c"],
  [("source/level filter", "emv_debug_internal, emv_debug_init"), ("communication events", "emv_debug_capdu/rapdu/ctpdu/rtpdu in emv_ttl_trx"), ("macros", "emv_debug.h")])

p("C24", "The PC/SC layer reports readers and cards truthfully",
  "For every sequence of PC/SC service results and reader states, the reader layer lists exactly the readers present, reports states, features and properties as given, connects, transmits and disconnects the reader it was asked to use, waits until a card that satisfies the request is present, copies ATR and identifiers within their buffers, and releases every context, card connection and allocation exactly once on every path.",
  ["fault_sequences", "histories"], "all sequences of PC/SC service results, reader lists, states and attribute values",
  "There is no PC/SC service in the test environment; no test executes this layer.",
  ["src/pcsc.c", "src/pcsc.h"],
  [("reader list and state handling", "pcsc_init, pcsc_wait_for_card"), ("feature TLV parsing", "pcsc_reader_populate_features, pcsc_reader_get_property"), ("connection lifecycle", "pcsc_reader_connect/disconnect, pcsc_release")])

p("C25", "Independent contexts can be used concurrently",
  "Threads that each use their own context, transport and lists, with the library's global configuration set up beforehand, interfere with each other in no way: there are no data races and every thread gets exactly the results it would get alone.",
  ["schedules"], "all interleavings of threads running transactions and decoders on separate data",
  "All tests are single threaded.",
  ["src/emv.c", "src/emv_tal.c", "src/emv_ttl.c", "src/emv_strings.c", "src/iso7816_strings.c", "src/iso8859_boost.cpp", "src/isocodes_lookup.cpp"],
  [("no shared mutable state", "library functions keep state in caller provided structures only")])

p("C26", "emv-tool performs exactly the requested transaction and reports it truthfully",
  "For every command line, set of readers, cards, card behaviour and cardholder input, emv-tool refuses requests that are incomplete or not as documented (types and amounts that are not decimal digits or do not fit, missing amounts, unknown debug sources, levels and options) before it touches a reader; otherwise it performs exactly one transaction, with the requested type, amounts, date and time, with the first card presented, sends that card exactly the commands EMV requires for the applications the cardholder chose, ends on every error and at the end of its input, prints the readers, the applications, the outcome and the data of the card and terminal as they are, emits every debug event requested and no other, and releases readers and memory.",
  ["inputs", "histories", "fault_sequences"], "all command lines, reader and card behaviours and cardholder inputs",
  "No test runs emv-tool: it needs a reader and a card.",
  ["tools/emv-tool.c", "tools/print_helpers.c", "src/pcsc.c", "src/emv.c"],
  [("option handling", "argp_parser_helper and the checks at the start of main"), ("transaction", "main"), ("reporting", "print_pcsc_readers, print_emv_app, print_emv_tlv_list, print_emv_debug")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
