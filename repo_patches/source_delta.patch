From e5bc20b893a07303a3327bd721c36d5911ea7c74 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 01/58] fix: consume end-of-content when decoding BER
 indefinite length

The number of bytes consumed for an indefinite length element excluded its
end-of-content octets. An iterator would therefore decode the end-of-content
octets as the next element and an outer indefinite length element would
mistake the end-of-content of an inner element for its own, such that the
remaining content was silently lost.
---
 src/iso8825_ber.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/iso8825_ber.c b/src/iso8825_ber.c
index ed64e25..ef5b559 100644
--- a/src/iso8825_ber.c
+++ b/src/iso8825_ber.c
@@ -86,6 +86,7 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 	int r;
 	const uint8_t* buf = ptr;
 	size_t offset = 0;
+	size_t eoc_len = 0;
 
 	if (!ptr || !tlv) {
 		return -1;
@@ -142,7 +143,13 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 			}
 
 			// Check for end-of-content
+			// See ISO 8825-1:2003, 8.1.5
 			if (inner_tlv.tag == ASN1_EOC) {
+				if (inner_tlv.length) {
+					// Invalid end-of-content
+					return -7;
+				}
+				eoc_len = r;
 				break;
 			}
 
@@ -191,9 +198,10 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 		return -11;
 	}
 
-	// Consume content
+	// Consume content, as well as end-of-content for indefinite length form
 	tlv->value = &buf[offset];
 	offset += tlv->length;
+	offset += eoc_len;
 
 	// Capture class and primitive/constructed bits as flags
 	tlv->flags = buf[0] & (ISO8825_BER_CLASS_MASK | ISO8825_BER_CONSTRUCTED);
-- 
2.43.0


From 33332e8b60bcee3021a8e71d7aa4d3b7310aec9f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:33:32 +0000
Subject: [PATCH 02/58] fix: bound and validate BER object identifier decoding

The subidentifier count was compared to the size of the OID value array in
bytes, not in elements, such that an encoding with more than 10 components
was written beyond the OID output. A truncated or overflowing subidentifier
was accepted, and a multibyte first subidentifier was decoded as if it were
two components.
---
 src/iso8825_ber.c | 62 ++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/src/iso8825_ber.c b/src/iso8825_ber.c
index ef5b559..9a5b60d 100644
--- a/src/iso8825_ber.c
+++ b/src/iso8825_ber.c
@@ -275,41 +275,30 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 {
 	const uint8_t* buf = ptr;
 
-	memset(oid, 0, sizeof(*oid));
-
 	if (!ptr || !oid || !len) {
 		return -1;
 	}
-
-	if (len >= sizeof(oid->value)) {
-		// OID too long
-		return -2;
-	}
-
-	// See ISO 8825-1:2003, 8.19.4
-	if (buf[0] < 40) { // ITU-T
-		oid->value[0] = ASN1_OID_ITU_T;
-		oid->value[1] = buf[0];
-	} else if (buf[0] < 80) { // ISO
-		oid->value[0] = ASN1_OID_ISO;
-		oid->value[1] = buf[0] - 40;
-	} else { // joint-iso-itu-t
-		oid->value[0] = ASN1_OID_JOINT;
-		oid->value[1] = buf[0] - 80;
-	}
-	oid->length = 2;
-	++buf;
-	--len;
+	memset(oid, 0, sizeof(*oid));
 
 	// See ISO 8825-1:2003, 8.19
-	while (len && oid->length < sizeof(oid->value)) {
+	while (len) {
 		uint32_t subid = 0;
+		bool last_octet;
 
 		// Decode multibyte subidentifier
-		while (len) {
+		do {
+			if (!len) {
+				// Incomplete subidentifier
+				return -3;
+			}
+			if (subid > (UINT32_MAX >> 7)) {
+				// Subidentifier too large
+				return -4;
+			}
+
 			// Determine whether it is the last octet of the subidentifier
 			// See ISO 8825-1:2003, 8.19.2
-			bool last_octet = !(*buf & 0x80); // TODO: use define
+			last_octet = !(*buf & 0x80); // TODO: use define
 
 			// Extract the next 7 bits of the subidentifier
 			// See ISO 8825-1:2003, 8.19.2
@@ -317,9 +306,28 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 			subid |= *buf & 0x7f; // TODO: use define
 			++buf;
 			--len;
+		} while (!last_octet);
+
+		if (!oid->length) {
+			// First subidentifier encodes first two OID components
+			// See ISO 8825-1:2003, 8.19.4
+			if (subid < 40) { // ITU-T
+				oid->value[0] = ASN1_OID_ITU_T;
+				oid->value[1] = subid;
+			} else if (subid < 80) { // ISO
+				oid->value[0] = ASN1_OID_ISO;
+				oid->value[1] = subid - 40;
+			} else { // joint-iso-itu-t
+				oid->value[0] = ASN1_OID_JOINT;
+				oid->value[1] = subid - 80;
+			}
+			oid->length = 2;
+			continue;
+		}
 
-			if (last_octet)
-				break;
+		if (oid->length >= sizeof(oid->value) / sizeof(oid->value[0])) {
+			// OID too long
+			return -2;
 		}
 
 		// Store subidentifier
-- 
2.43.0


From ba3145d2df0ae55825c08b6c5293e663db2cf8fb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:42:16 +0000
Subject: [PATCH 03/58] fix: track T=0 command data and INS in emv_ttl_trx()

The INS byte used to recognise procedure bytes was taken from the most recent
transmission, which is command data once the card has requested any. The
remaining command data length was taken from P3 even if some bytes were
already sent or P3 was since changed, and updating Le after command data was
sent used the command data as the command header. Both caused reads beyond
the C-APDU and wrong transmissions.
---
 src/emv_ttl.c | 55 ++++++++++++++++++++++-----------------------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 20657d0..31f761c 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -42,8 +42,10 @@ int emv_ttl_trx(
 
 	// C-TPDU header: CLA INS P1 P2 P3
 	uint8_t c_tpdu_header[5];
-	// C-TPDU data: found after P3; NULL if absent
+	// C-TPDU data: found after P3; NULL if absent or no more data available
 	const void* c_tpdu_data = NULL;
+	// Length of C-TPDU data not yet transmitted
+	size_t c_tpdu_data_len = 0;
 
 	// Next buffer to transmit
 	const void* tx_buf;
@@ -81,6 +83,15 @@ int emv_ttl_trx(
 			return -2;
 	}
 
+	if (apdu_case == ISO7816_APDU_CASE_1) {
+		// Build case 1 C-TPDU header
+		memcpy(c_tpdu_header, c_apdu, 4);
+		c_tpdu_header[4] = 0; // P3 = 0
+	} else {
+		// Build case 2S/3S/4S C-TPDU header
+		memcpy(c_tpdu_header, c_apdu, 5);
+	}
+
 	if (ctx->cardreader.mode == EMV_CARDREADER_MODE_APDU) {
 		// For APDU mode, transmit C-APDU as-is
 		tx_buf = c_apdu;
@@ -89,20 +100,12 @@ int emv_ttl_trx(
 	} else if (ctx->cardreader.mode == EMV_CARDREADER_MODE_TPDU) {
 		// For TPDU mode, transmit C-TPDU header and wait for procedure byte
 
-		if (apdu_case == ISO7816_APDU_CASE_1) {
-			// Build case 1 C-TPDU header
-			memcpy(c_tpdu_header, c_apdu, 4);
-			c_tpdu_header[4] = 0; // P3 = 0
-		} else {
-			// Build case 2S/3S/4S C-TPDU header
-			memcpy(c_tpdu_header, c_apdu, 5);
-		}
-
 		if (apdu_case == ISO7816_APDU_CASE_3S ||
 			apdu_case == ISO7816_APDU_CASE_4S
 		) {
 			// Locate C-TPDU data
 			c_tpdu_data = c_apdu + 5;
+			c_tpdu_data_len = c_tpdu_header[4]; // Lc
 		}
 
 		tx_buf = c_tpdu_header;
@@ -140,8 +143,9 @@ int emv_ttl_trx(
 
 		emv_debug_rtpdu(rx_buf, rx_len);
 
-		// Store INS of most recent tx for later use
-		INS = *((uint8_t*)(tx_buf + 1));
+		// INS of most recent C-TPDU header. Note that the most recent tx may be
+		// C-TPDU data instead.
+		INS = c_tpdu_header[1];
 
 		// Extract SW1-SW2 status bytes
 		if (rx_len > 1) {
@@ -199,10 +203,11 @@ int emv_ttl_trx(
 				}
 
 				tx_buf = c_tpdu_data;
-				tx_buf_len = c_tpdu_header[4]; // Next transmit length is Lc
+				tx_buf_len = c_tpdu_data_len; // Next transmit length is remainder of Lc
 
 				// No more data available
 				c_tpdu_data = NULL;
+				c_tpdu_data_len = 0;
 
 				continue;
 			}
@@ -219,23 +224,8 @@ int emv_ttl_trx(
 				tx_buf = c_tpdu_data;
 				tx_buf_len = 1;
 				++c_tpdu_data;
-
-				// Case 3: CLA INS P1 P2 Lc [Data(Lc)]
-				// If c_tpdu_data is at the end of [Data(Lc)],
-				// no more data is available
-				if (apdu_case == ISO7816_APDU_CASE_3S &&
-					c_tpdu_data - c_apdu >= c_apdu_len
-				) {
-					// No more data available
-					c_tpdu_data = NULL;
-				}
-
-				// Case 4: CLA INS P1 P2 Lc [Data(Lc)] Le
-				// If c_tpdu_data is at the end of [Data(Lc)],
-				// no more data is available
-				if (apdu_case == ISO7816_APDU_CASE_4S &&
-					c_tpdu_data - c_apdu >= c_apdu_len - 1
-				) {
+				--c_tpdu_data_len;
+				if (!c_tpdu_data_len) {
 					// No more data available
 					c_tpdu_data = NULL;
 				}
@@ -394,6 +384,10 @@ int emv_ttl_trx(
 			tx_buf = c_tpdu_header;
 			tx_buf_len = sizeof(c_tpdu_header);
 
+			// C-TPDU data does not belong to GET RESPONSE
+			c_tpdu_data = NULL;
+			c_tpdu_data_len = 0;
+
 			// Next transmission
 			continue;
 		}
@@ -401,7 +395,6 @@ int emv_ttl_trx(
 		if (tx_update_le) {
 			// Update Le for next transmission
 			// See EMV Contact Interface Specification v1.0, 9.2.2.3.1, table 25
-			memcpy(c_tpdu_header, tx_buf, 4);
 			c_tpdu_header[4] = SW2; // P3 = Le
 			tx_buf = c_tpdu_header;
 			tx_buf_len = sizeof(c_tpdu_header);
-- 
2.43.0


From ff17d16dc564f67ae1b0e6c66c13ef51ccff59d1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:42:20 +0000
Subject: [PATCH 04/58] fix: respect buffer capacities in emv_ttl_trx()

A R-APDU buffer of one byte was overrun by SW1-SW2, and the receive buffer
could not hold the leading INS byte of a TPDU mode response with 256 bytes of
data.
---
 src/emv_ttl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 31f761c..043fa76 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -57,6 +57,10 @@ int emv_ttl_trx(
 	if (!ctx || !c_apdu || !c_apdu_len || !r_apdu || !r_apdu_len || !*r_apdu_len || !sw1sw2) {
 		return -1;
 	}
+	if (*r_apdu_len < 2) {
+		// Not enough capacity for SW1-SW2
+		return -6;
+	}
 
 	emv_debug_capdu(c_apdu, c_apdu_len);
 
@@ -122,7 +126,7 @@ int emv_ttl_trx(
 	do {
 		int r;
 		uint8_t INS;
-		uint8_t rx_buf[EMV_RAPDU_MAX];
+		uint8_t rx_buf[1 + EMV_RAPDU_MAX]; // For TPDU mode, data is preceded by INS
 		size_t rx_len = sizeof(rx_buf);
 		uint8_t SW1;
 		uint8_t SW2;
-- 
2.43.0


From f0c7ab3cf8440e5d814fe8cfb4585e4ef4ab1a62 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:42:24 +0000
Subject: [PATCH 05/58] fix: bound the exchanges caused by status bytes without
 data

A card that answers each GET RESPONSE with 61XX, or each corrected command
with 6CXX, without ever providing data kept emv_ttl_trx() busy forever.
---
 src/emv_ttl.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 043fa76..3f38b91 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -29,6 +29,9 @@
 #include <stdbool.h>
 #include <string.h>
 
+/// Maximum number of consecutive 61XX, 6CXX or warning status bytes without data
+#define EMV_TTL_NO_DATA_MAX (8)
+
 int emv_ttl_trx(
 	struct emv_ttl_t* ctx,
 	const void* c_apdu,
@@ -54,6 +57,10 @@ int emv_ttl_trx(
 	// Current position in R-APDU output
 	uint8_t* r_apdu_ptr = r_apdu;
 
+	// Number of consecutive status bytes that required another transmission
+	// but provided no response data
+	unsigned int no_data_count = 0;
+
 	if (!ctx || !c_apdu || !c_apdu_len || !r_apdu || !r_apdu_len || !*r_apdu_len || !sw1sw2) {
 		return -1;
 	}
@@ -132,6 +139,7 @@ int emv_ttl_trx(
 		uint8_t SW2;
 		bool tx_get_response = false;
 		bool tx_update_le  = false;
+		const uint8_t* r_apdu_ptr_prev = r_apdu_ptr;
 
 		emv_debug_ctpdu(tx_buf, tx_buf_len);
 
@@ -364,6 +372,19 @@ int emv_ttl_trx(
 			*r_apdu_len -= rx_len;
 		}
 
+		if (tx_get_response || tx_update_le) {
+			// Avoid endless transmissions if the card never provides the data
+			if (r_apdu_ptr == r_apdu_ptr_prev) {
+				++no_data_count;
+			} else {
+				no_data_count = 0;
+			}
+			if (no_data_count > EMV_TTL_NO_DATA_MAX) {
+				emv_debug_error("Card provides no response data");
+				return 12;
+			}
+		}
+
 		if (tx_get_response) {
 			uint8_t Le;
 
-- 
2.43.0


From 520cff1e8b0f47d061d8bede21a9c6a69a63d629 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:45:42 +0000
Subject: [PATCH 06/58] fix: extended Lc position in iso7816_apdu_case()

C6 and C7 follow C5, which is at offset 4. The first byte of the data field
was used as the least significant byte of the extended Lc field, such that
extended case 3 and case 4 commands were not recognised.
---
 src/iso7816_apdu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso7816_apdu.h b/src/iso7816_apdu.h
index c8c860e..1877c80 100644
--- a/src/iso7816_apdu.h
+++ b/src/iso7816_apdu.h
@@ -118,8 +118,8 @@ static inline int iso7816_apdu_case(const void* c_apdu, size_t c_apdu_len)
 			if (c_apdu_len > 7) {
 				// Extract bytes C6C7 from header
 				// See ISO 7816-3:2006, 12.1.3, table 13
-				unsigned int C6 = *(uint8_t*)(c_apdu + 6);
-				unsigned int C7 = *(uint8_t*)(c_apdu + 7);
+				unsigned int C6 = *(uint8_t*)(c_apdu + 5);
+				unsigned int C7 = *(uint8_t*)(c_apdu + 6);
 				unsigned int C6C7 = (C6 << 8) + C7;
 
 				if (C6C7) {
-- 
2.43.0


From 407aa8f4dc442ed4bc01959ce185974f350848e6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:49:51 +0000
Subject: [PATCH 07/58] fix: uninitialised tag in PSE AEF record debug message

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 644e602..4303c82 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -240,7 +240,7 @@ static int emv_tal_parse_aef_record(
 	}
 	if (aef_template_tlv.tag != EMV_TAG_70_DATA_TEMPLATE) {
 		// No AEF template in PSE record; ignore and continue
-		emv_debug_error("Unexpected data element 0x%02X in PSE AEF record", tlv.tag);
+		emv_debug_error("Unexpected data element 0x%02X in PSE AEF record", aef_template_tlv.tag);
 		return EMV_TAL_RESULT_PSE_AEF_INVALID;
 	}
 
-- 
2.43.0


From 956eca7614b74e4ad60987cfb7ff289fe103d153 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:49:51 +0000
Subject: [PATCH 08/58] fix: record number wrapping around while reading
 records

---
 src/emv_tal.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 4303c82..9a383e9 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -149,7 +149,8 @@ int emv_tal_read_pse(
 
 	// Read all records from PSE AEF using the SFI
 	// See EMV 4.4 Book 1, 12.2.3
-	for (uint8_t record_number = 1; ; ++record_number) {
+	// NOTE: Record numbers are limited to a single byte
+	for (unsigned int record_number = 1; record_number <= 255; ++record_number) {
 		uint8_t aef_record[EMV_RAPDU_DATA_MAX];
 		size_t aef_record_len = sizeof(aef_record);
 
@@ -754,7 +755,7 @@ static int emv_tal_read_sfi_records(
 		return EMV_TAL_ERROR_INVALID_PARAMETER;
 	}
 
-	for (uint8_t record_number = afl_entry->first_record; record_number <= afl_entry->last_record; ++record_number) {
+	for (unsigned int record_number = afl_entry->first_record; record_number <= afl_entry->last_record; ++record_number) {
 		uint8_t record[EMV_RAPDU_DATA_MAX];
 		size_t record_len = sizeof(record);
 		uint16_t sw1sw2;
-- 
2.43.0


From d66a2441ade6dfab1104ff7a3d46dc1502c22424 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:49:51 +0000
Subject: [PATCH 09/58] fix: use of uninitialised data for empty application
 data record

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 9a383e9..9e61390 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -793,7 +793,7 @@ static int emv_tal_read_sfi_records(
 
 		// Therefore, any record that is not encoded as field 70 should not be
 		// parsed for EMV fields and invalidates offline data authentication.
-		if (record[0] != EMV_TAG_70_DATA_TEMPLATE) {
+		if (!record_len || record[0] != EMV_TAG_70_DATA_TEMPLATE) {
 			if (afl_entry->sfi >= 1 && afl_entry->sfi <= 10) {
 				// Invalid record for SFIs 1 - 10
 				// EMV 4.4 Book 3, 6.5.11.4
-- 
2.43.0


From 1a2d525647e70531a44b0ac874f1f51b59da5a8d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:49:51 +0000
Subject: [PATCH 10/58] fix: dangling AIP when GPO response lacks AFL

---
 src/emv_tal.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 9e61390..3e0c0cd 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -738,6 +738,15 @@ int emv_tal_get_processing_options(
 
 exit:
 	emv_tlv_list_clear(&gpo_list);
+	if (r) {
+		// Output pointers would otherwise refer to released fields
+		if (aip) {
+			*aip = NULL;
+		}
+		if (afl) {
+			*afl = NULL;
+		}
+	}
 	return r;
 }
 
-- 
2.43.0


From 9769aff432580ced2b5dcd0387745374120ee588 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 11/58] fix: bound SELECT next exchanges for partial AID
 matches

---
 src/emv_tal.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 3e0c0cd..e9e7431 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -34,6 +34,11 @@
 #include <stdint.h>
 #include <string.h>
 
+// Maximum number of partial AID matches to request from the card per supported
+// AID. This limits the number of exchanges with a card that never indicates
+// that there are no further applications.
+#define EMV_TAL_SELECT_NEXT_MAX (255)
+
 // Helper functions
 static int emv_tal_parse_aef_record(
 	struct emv_tlv_list_t* pse_tlv_list,
@@ -304,6 +309,7 @@ int emv_tal_find_supported_apps(
 	int r;
 	struct emv_tlv_t* aid;
 	bool exact_match;
+	unsigned int next_count = 0;
 
 	if (!ttl || !supported_aids || !app_list) {
 		// Invalid parameters; terminate session
@@ -430,7 +436,20 @@ int emv_tal_find_supported_apps(
 					app = NULL;
 				}
 
+				if (exact_match) {
+					next_count = 0;
+				}
+				if (next_count >= EMV_TAL_SELECT_NEXT_MAX) {
+					// Card provides applications endlessly; continue to next
+					// supported AID
+					emv_debug_error("Too many partial matches");
+					aid = aid->next;
+					exact_match = true;
+					continue;
+				}
+
 				// See EMV 4.4 Book 1, 12.3.3, step 7
+				++next_count;
 				exact_match = false;
 				continue;
 
-- 
2.43.0


From 3efebaafdcaf8815d34e921cc55a0f264c4648a6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 12/58] fix: use after free when initiating application
 processing again

---
 src/emv.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/emv.c b/src/emv.c
index 0d456bf..9642f05 100644
--- a/src/emv.c
+++ b/src/emv.c
@@ -502,10 +502,17 @@ int emv_initiate_application_processing(
 	struct emv_tlv_list_t gpo_output = EMV_TLV_LIST_INIT;
 
 	if (!ctx || !ctx->selected_app) {
-		emv_debug_trace_msg("ctx=%p, selected_app=%p", ctx, ctx->selected_app);
+		emv_debug_trace_msg("ctx=%p, selected_app=%p", ctx, ctx ? ctx->selected_app : NULL);
 		emv_debug_error("Invalid parameter");
 		return EMV_ERROR_INVALID_PARAMETER;
 	}
+	if (emv_tlv_list_is_empty(&ctx->selected_app->tlv_list)) {
+		// Application data, including the AID, has already been moved to the
+		// ICC data list by a previous invocation. The application must be
+		// selected again before processing can be initiated again.
+		emv_debug_error("Application processing already initiated");
+		return EMV_ERROR_INVALID_PARAMETER;
+	}
 
 	// Clear existing ICC data and terminal data lists to avoid ambiguity
 	emv_tlv_list_clear(&ctx->icc);
-- 
2.43.0


From a98dd7596787b1b02ddec060a6b58faac734f319 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:53:14 +0000
Subject: [PATCH 13/58] fix: continue session when PSE provides invalid SFI
 value

---
 src/emv_tal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index e9e7431..3f38260 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -142,7 +142,9 @@ int emv_tal_read_pse(
 		r = EMV_TAL_RESULT_PSE_SFI_NOT_FOUND;
 		goto exit;
 	}
-	if (pse_sfi->length != 1 || !pse_sfi->value) {
+	if (pse_sfi->length != 1 || !pse_sfi->value ||
+		pse_sfi->value[0] < 1 || pse_sfi->value[0] > 30
+	) {
 		emv_debug_trace_data("pse_sfi=", pse_sfi->value, pse_sfi->length);
 
 		// Invalid SFI for PSE; terminal may continue session
-- 
2.43.0


From 3645a9bf65bc69a21c6765f10aa61a79991a2f98 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:53:54 +0000
Subject: [PATCH 14/58] fix: incomplete UTF-8 sequence when truncating ISO 8859
 conversion

---
 src/iso8859_boost.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iso8859_boost.cpp b/src/iso8859_boost.cpp
index 5e5368b..ed3f88d 100644
--- a/src/iso8859_boost.cpp
+++ b/src/iso8859_boost.cpp
@@ -67,6 +67,16 @@ int iso8859_to_utf8(
 			return 2;
 		}
 
+		if (utf8_str.size() > utf8_len - 1) {
+			// Insufficient space in output buffer; truncate without leaving an
+			// incomplete UTF-8 sequence
+			std::size_t len = utf8_len - 1;
+			while (len && (utf8_str[len] & 0xC0) == 0x80) {
+				--len;
+			}
+			utf8_str.resize(len);
+		}
+
 		std::strncpy(utf8, utf8_str.c_str(), utf8_len - 1);
 		utf8[utf8_len - 1] = 0;
 
-- 
2.43.0


From 3d39dc466913c7ff375b37e34d5b9ccd0aefb587 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:53:54 +0000
Subject: [PATCH 15/58] fix: NULL terminate output of ISO 8859 conversion using
 iconv

---
 src/iso8859_iconv.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/iso8859_iconv.c b/src/iso8859_iconv.c
index 7c00e44..dd7cbe2 100644
--- a/src/iso8859_iconv.c
+++ b/src/iso8859_iconv.c
@@ -22,6 +22,7 @@
 #include "iso8859.h"
 
 #include <stdio.h>
+#include <errno.h>
 #include <iconv.h>
 
 bool iso8859_is_supported(unsigned int codepage)
@@ -49,10 +50,11 @@ int iso8859_to_utf8(
 	char fromcode[12]; // ISO-8859-XX\0
 	iconv_t cd;
 	size_t r;
+	int iconv_errno;
 	char* inbuf = (char*)iso8859;
 	size_t inbytesleft = iso8859_len;
 	char* outbuf = utf8;
-	size_t outbytesleft = utf8_len;
+	size_t outbytesleft = utf8_len - 1; // Ensure enough space for NULL termination
 
 	if (!iso8859 || !iso8859_len || !utf8 || !utf8_len) {
 		return -1;
@@ -68,9 +70,12 @@ int iso8859_to_utf8(
 	if (cd == (iconv_t)-1) {
 		return -2;
 	}
+	errno = 0;
 	r = iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+	iconv_errno = errno;
 	iconv_close(cd);
-	if (r == (size_t)-1) {
+	*outbuf = 0; // NULL terminate
+	if (r == (size_t)-1 && iconv_errno != E2BIG) {
 		return 2;
 	}
 
-- 
2.43.0


From 6d935b1970132f06dedac650fa0dd028e8671f00 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:53:54 +0000
Subject: [PATCH 16/58] fix: buffer overflow of simple ISO 8859 conversion

---
 src/iso8859_simple.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iso8859_simple.c b/src/iso8859_simple.c
index 9412595..63ca9ac 100644
--- a/src/iso8859_simple.c
+++ b/src/iso8859_simple.c
@@ -58,8 +58,9 @@ int iso8859_to_utf8(
 			break;
 		}
 
-		// Ensure that at least 2 output bytes are available
-		if (utf8_len - utf8_idx < 2) {
+		// Ensure that the encoded character (1 or 2 bytes) as well as the NULL
+		// termination will fit in the output buffer
+		if (utf8_len - utf8_idx < (iso8859[i] < 0x80 ? 2 : 3)) {
 			// Unsufficient space left in output buffer
 			break;
 		}
-- 
2.43.0


From 7dd38640fac556602d4182ee42143c1048c052ae Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:08:30 +0000
Subject: [PATCH 17/58] fix: keep card order of candidates without application
 priority

---
 src/emv_app.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/emv_app.c b/src/emv_app.c
index a76a46f..0803ffd 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -520,10 +520,7 @@ int emv_app_list_sort_priority(struct emv_app_list_t* list)
 		// implementation chooses to favour applications with a priority
 		// indicator over those without.
 		for (struct emv_app_t* cur = sorted_list.front; cur != NULL; cur = cur->next) {
-			if (!cur->priority) {
-				break;
-			}
-			if (app->priority && app->priority < cur->priority) {
+			if (app->priority && (!cur->priority || app->priority < cur->priority)) {
 				break;
 			}
 			pos = cur;
-- 
2.43.0


From c3bdbd09d36b30a55d4e6c761c9310fbea935344 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:08:34 +0000
Subject: [PATCH 18/58] fix: use of uninitialised TLV when creating application
 from empty FCI

---
 src/emv_app.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_app.c b/src/emv_app.c
index 0803ffd..5abcf1b 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -99,7 +99,7 @@ struct emv_app_t* emv_app_create_from_fci(const void* fci, size_t fci_len)
 
 	// Parse FCI template
 	r = iso8825_ber_decode(fci, fci_len, &tlv);
-	if (r != fci_len) {
+	if (r <= 0 || r != fci_len) {
 		// Parse error
 		goto error;
 	}
-- 
2.43.0


From 7ea10ab4a7f19198202f9372937590e39c071923 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:32:40 +0000
Subject: [PATCH 19/58] fix: underflow when ATR historical bytes lack the
 status indicator

---
 src/iso7816.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index 8fe6836..6b6b77a 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -193,6 +193,11 @@ int iso7816_atr_parse(const uint8_t* atr, size_t atr_len, struct iso7816_atr_inf
 		// See ISO 7816-4:2005, 8.1.1
 		switch (atr_info->T1) {
 			case ISO7816_ATR_T1_COMPACT_TLV_SI:
+				if (atr_info->historical_bytes_len < 3) {
+					// Insufficient historical bytes for status indicator
+					return 5;
+				}
+
 				// Store status indicator bytes for later parsing
 				atr_info->historical_bytes_len -= 3;
 				atr_info->status_indicator_bytes = atr_info->historical_bytes + atr_info->historical_bytes_len;
-- 
2.43.0


From 5098f418874e5173fe5a80df6dec16a1b2d95d86 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:32:44 +0000
Subject: [PATCH 20/58] fix: accept ATR historical bytes without COMPACT-TLV
 data objects

---
 src/iso7816.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index 6b6b77a..1223793 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -719,6 +719,12 @@ static int iso7816_atr_parse_historical_bytes(const void* historical_bytes, size
 	struct iso7816_compact_tlv_itr_t itr;
 	struct iso7816_compact_tlv_t tlv;
 
+	if (!historical_bytes_len) {
+		// COMPACT-TLV data objects are optional
+		// See ISO 7816-4:2005, 8.1.1.1
+		return 0;
+	}
+
 	r = iso7816_compact_tlv_itr_init(historical_bytes, historical_bytes_len, &itr);
 	if (r) {
 		return 24;
-- 
2.43.0


From 44e2ba52704d42f9c57e1e1423af015cab9f92d7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:32:48 +0000
Subject: [PATCH 21/58] fix: overflow when computing BWT from ATR

---
 src/iso7816.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso7816.c b/src/iso7816.c
index 1223793..2c25f5b 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -710,7 +710,7 @@ static void iso7816_compute_wt(struct iso7816_atr_info_t* atr_info)
 	// BWT = (((2^BWI x 960 x 372 x D / F) + 11)etu; where D is Di and F is Fi
 
 	// And finally, after all that thinking...
-	atr_info->protocol_T1.BWT = 11 + (((1 << BWI) * 960 * 372 * Di) / Fi);
+	atr_info->protocol_T1.BWT = 11 + (((uint64_t)(1 << BWI) * 960 * 372 * Di) / Fi);
 }
 
 static int iso7816_atr_parse_historical_bytes(const void* historical_bytes, size_t historical_bytes_len, struct iso7816_atr_info_t* atr_info)
-- 
2.43.0


From 3e8b321fa508e1c3f4e92bf2061640f5c7a12bfb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:32:52 +0000
Subject: [PATCH 22/58] fix: ATR interface byte TD4 parsed as historical byte

---
 src/iso7816.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index 2c25f5b..865b4ad 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -159,6 +159,16 @@ int iso7816_atr_parse(const uint8_t* atr, size_t atr_len, struct iso7816_atr_inf
 			if (protocol != ISO7816_PROTOCOL_T0) {
 				tck_mandatory = true;
 			}
+
+			if (i == 4) {
+				// TD4 is the last interface byte supported by this
+				// implementation
+				if (*atr_info->TD[i] & ~ISO7816_ATR_Tx_OTHER_MASK) {
+					// Unsupported interface bytes
+					return 9;
+				}
+				++atr_idx;
+			}
 		} else {
 			// No more interface bytes remaining
 			break;
-- 
2.43.0


From d068ee2f0c42cf996aa0121ef8a2f323cde6a6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:36:00 +0000
Subject: [PATCH 23/58] fix: identify JCB application identifiers

---
 src/emv_fields.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/emv_fields.c b/src/emv_fields.c
index cd097a1..dcaa570 100644
--- a/src/emv_fields.c
+++ b/src/emv_fields.c
@@ -217,6 +217,8 @@ int emv_aid_get_info(
 	// JCB
 	if (emv_aid_match(aid, aid_len, jcb_aid)) {
 		info->scheme = EMV_CARD_SCHEME_JCB;
+		// Individual JCB card products are not reflected here
+		return 0;
 	}
 
 	// Dankort
-- 
2.43.0


From 793c4591102eb9dcbe568b7081bc4623efb556f3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:38:31 +0000
Subject: [PATCH 24/58] fix: emv_format_n_to_uint wrapped around beyond 32 bits

---
 src/emv_tlv.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/emv_tlv.c b/src/emv_tlv.c
index 30496d6..f35d386 100644
--- a/src/emv_tlv.c
+++ b/src/emv_tlv.c
@@ -472,6 +472,10 @@ int emv_format_n_to_uint(const uint8_t* buf, size_t buf_len, uint32_t* value)
 			// Invalid digit for EMV format "n"
 			return 1;
 		}
+		if (*value > (UINT32_MAX - digit) / 10) {
+			// Value exceeds 32-bit unsigned integer
+			return 3;
+		}
 		// Shift decimal digit into x
 		*value = (*value * 10) + digit;
 
@@ -481,6 +485,10 @@ int emv_format_n_to_uint(const uint8_t* buf, size_t buf_len, uint32_t* value)
 			// Invalid digit for EMV format "n"
 			return 2;
 		}
+		if (*value > (UINT32_MAX - digit) / 10) {
+			// Value exceeds 32-bit unsigned integer
+			return 3;
+		}
 		// Shift decimal digit into x
 		*value = (*value * 10) + digit;
 	}
-- 
2.43.0


From c2c924e8ed94630ac61051539cd6dadfa3f052fb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:38:44 +0000
Subject: [PATCH 25/58] fix: format n text was wrong for values beyond 32 bits

---
 src/emv_strings.c | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 2848a90..a2f3a58 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1568,15 +1568,46 @@ int emv_format_cn_get_string(const uint8_t* buf, size_t buf_len, char* str, size
 
 int emv_format_n_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t str_len)
 {
-	int r;
-	uint32_t value;
+	bool found_first_digit = false;
 
-	r = emv_format_n_to_uint(buf, buf_len, &value);
-	if (r) {
-		return r;
+	if (!buf || !buf_len || !str) {
+		return -1;
 	}
 
-	return emv_uint_to_str(value, str, str_len);
+	if (str_len < 2) {
+		// Minimum length for zero string
+		return -2;
+	}
+
+	// Extract two decimal digits per byte
+	for (size_t i = 0; i < buf_len * 2; ++i) {
+		uint8_t digit;
+
+		// Most significant nibble first
+		digit = (i & 0x1) ? buf[i / 2] & 0xf : buf[i / 2] >> 4;
+		if (digit > 9) {
+			// Invalid digit for EMV format "n"
+			return (i & 0x1) ? 2 : 1;
+		}
+
+		// Omit leading zeros
+		if (digit == 0 && !found_first_digit && i + 1 < buf_len * 2) {
+			continue;
+		}
+		found_first_digit = true;
+
+		if (str_len == 1) {
+			// No space left for next digit
+			*str = 0;
+			return -3;
+		}
+		*str = '0' + digit;
+		++str;
+		--str_len;
+	}
+	*str = 0; // NULL terminate
+
+	return 0;
 }
 
 static int emv_uint_to_str(uint32_t value, char* str, size_t str_len)
-- 
2.43.0


From 77a139b568fe763d48e08a35fca187cfae4ebd65 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:38:44 +0000
Subject: [PATCH 26/58] fix: emv_uint_to_str wrote beyond a full string buffer

---
 src/emv_strings.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index a2f3a58..b036b11 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1636,18 +1636,18 @@ static int emv_uint_to_str(uint32_t value, char* str, size_t str_len)
 		c = '0' + digit;
 
 		if (digit != 0 || found_first_digit) {
+			if (str_len == 1) {
+				// No space left to NULL terminate
+				*str = 0;
+				return -3;
+			}
+
 			*str = c;
 			++str;
 			--str_len;
 			found_first_digit = true;
 		}
 
-		if (str_len == 0) {
-			// No space left to NULL terminate
-			str[0] = 0;
-			return -3;
-		}
-
 		value %= divider;
 		divider /= 10;
 	}
-- 
2.43.0


From e1b3a3b13975bdf3af2c8e8c965fef911b92e7ca Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:38:44 +0000
Subject: [PATCH 27/58] fix: date and time texts wrote beyond a local buffer

---
 src/emv_strings.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index b036b11..cd1b720 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1837,7 +1837,7 @@ int emv_date_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t st
 		}
 		date_str[(i * 2) + 1] = '0' + digit;
 	}
-	date_str[(buf_len * 2) + 1] = 0;
+	date_str[buf_len * 2] = 0;
 
 	// Assume it's the 21st century; if it isn't, then hopefully we've at
 	// least addressed climate change...
@@ -1910,7 +1910,7 @@ int emv_time_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t st
 		}
 		time_str[(i * 2) + 1] = '0' + digit;
 	}
-	time_str[(buf_len * 2) + 1] = 0;
+	time_str[buf_len * 2] = 0;
 
 	// Hours
 	memcpy(str + offset, time_str, 2);
-- 
2.43.0


From de31f07ffbd17d11a7c45926940a52695b69e86e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:04:30 +0000
Subject: [PATCH 28/58] fix: empty string lists were left uninitialised

---
 src/emv_strings.c     | 3 +++
 src/iso7816_strings.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index cd1b720..13b4214 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -2030,6 +2030,9 @@ static void emv_str_list_init(struct str_itr_t* itr, char* buf, size_t len)
 {
 	itr->ptr = buf;
 	itr->len = len;
+	if (buf && len) {
+		*buf = 0; // NULL terminate empty list
+	}
 }
 
 ATTRIBUTE_FORMAT_PRINTF(2, 3)
diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index ed23dde..52eaa36 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -35,6 +35,9 @@ static void iso7816_str_list_init(struct str_itr_t* itr, char* buf, size_t len)
 {
 	itr->ptr = buf;
 	itr->len = len;
+	if (buf && len) {
+		*buf = 0; // NULL terminate empty list
+	}
 }
 
 static void iso7816_str_list_add(struct str_itr_t* itr, const char* str)
-- 
2.43.0


From deb9453a59938fc59f1acc647e4567a111be1727 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:04:33 +0000
Subject: [PATCH 29/58] fix: SELECT text lost the last digit of a 255-byte file
 identifier

---
 src/iso7816_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index 52eaa36..cc7b56e 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -141,7 +141,7 @@ static const char* iso7816_capdu_select_get_string(
 		for (size_t i = 0; i < apdu_case_4s->Lc; ++i) {
 			snprintf(
 				file_id_str + (i * 2),
-				sizeof(file_id_str) - 1 - (i * 2),
+				sizeof(file_id_str) - (i * 2),
 				"%02X",
 				apdu_case_4s->data[i]
 			);
-- 
2.43.0


From 1b823fbbbded5988f3a2dc1d03304ce521302691 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:05:08 +0000
Subject: [PATCH 30/58] fix: command texts checked the wrong length for short
 C-APDUs

---
 src/emv_strings.c     | 2 +-
 src/iso7816_strings.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 13b4214..5293013 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -6010,7 +6010,7 @@ int emv_capdu_get_string(
 
 	str[0] = 0; // NULL terminate
 
-	if (str_len < 4) {
+	if (c_apdu_len < 4) {
 		// C-APDU must be least 4 bytes
 		// See EMV Contact Interface Specification v1.0, 9.4.1
 		return -2;
diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index cc7b56e..fbb5553 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -421,7 +421,7 @@ const char* iso7816_capdu_get_string(
 	}
 	str[0] = 0; // NULL terminate
 
-	if (str_len < 4) {
+	if (c_apdu_len < 4) {
 		// C-APDU must be least 4 bytes
 		// See ISO 7816-4:2005, 5.1
 		return NULL;
-- 
2.43.0


From 48b1d9414880b48883fe546bb556a81fae53a29a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:07:04 +0000
Subject: [PATCH 31/58] fix: misspelt Card Status Update text

---
 src/emv_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 5293013..89db187 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -5857,7 +5857,7 @@ static int emv_csu_append_string_list(
 		emv_str_list_add(itr, "Card Status Update (CSU): Do Not Update Offline Counters");
 	}
 	if ((csu[1] & EMV_CSU_BYTE2_UPDATE_COUNTERS_MASK) == EMV_CSU_BYTE2_UPDATE_COUNTERS_UPPER_OFFLINE_LIMIT) {
-		emv_str_list_add(itr, "ard Status Update (CSU): Set Offline Counters to Upper Offline Limits");
+		emv_str_list_add(itr, "Card Status Update (CSU): Set Offline Counters to Upper Offline Limits");
 	}
 	if ((csu[1] & EMV_CSU_BYTE2_UPDATE_COUNTERS_MASK) == EMV_CSU_BYTE2_UPDATE_COUNTERS_RESET) {
 		emv_str_list_add(itr, "Card Status Update (CSU): Reset Offline Counters to Zero");
-- 
2.43.0


From a21649e51b52a1cd96706a89da31e613f16f8ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:07:08 +0000
Subject: [PATCH 32/58] fix: wrong bit for CCD Upper Cumulative Offline Amount
 Limit Exceeded

---
 src/emv_fields.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_fields.h b/src/emv_fields.h
index 375121e..4f89a8a 100644
--- a/src/emv_fields.h
+++ b/src/emv_fields.h
@@ -407,7 +407,7 @@ enum emv_iad_format_t {
 #define EMV_IAD_CCD_CVR_BYTE3_L_OFFLINE_TXN_CNT_LIMIT_EXCEEDED  (0x80) ///< Card Verification Results (CVR): Lower Offline Transaction Count Limit Exceeded
 #define EMV_IAD_CCD_CVR_BYTE3_U_OFFLINE_TXN_CNT_LIMIT_EXCEEDED  (0x40) ///< Card Verification Results (CVR): Upper Offline Transaction Count Limit Exceeded
 #define EMV_IAD_CCD_CVR_BYTE3_L_OFFLINE_AMOUNT_LIMIT_EXCEEDED   (0x20) ///< Card Verification Results (CVR): Lower Cumulative Offline Amount Limit Exceeded
-#define EMV_IAD_CCD_CVR_BYTE3_U_OFFLINE_AMOUNT_LIMIT_EXCEEDED   (0x20) ///< Card Verification Results (CVR): Upper Cumulative Offline Amount Limit Exceeded
+#define EMV_IAD_CCD_CVR_BYTE3_U_OFFLINE_AMOUNT_LIMIT_EXCEEDED   (0x10) ///< Card Verification Results (CVR): Upper Cumulative Offline Amount Limit Exceeded
 #define EMV_IAD_CCD_CVR_BYTE3_ISSUER_DISCRETIONARY_BIT1         (0x08) ///< Card Verification Results (CVR): Issuer-discretionary bit 1
 #define EMV_IAD_CCD_CVR_BYTE3_ISSUER_DISCRETIONARY_BIT2         (0x04) ///< Card Verification Results (CVR): Issuer-discretionary bit 2
 #define EMV_IAD_CCD_CVR_BYTE3_ISSUER_DISCRETIONARY_BIT3         (0x02) ///< Card Verification Results (CVR): Issuer-discretionary bit 3
-- 
2.43.0


From 3b93f2ec622f773fdd538935bf273cbe1e651664 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:07:12 +0000
Subject: [PATCH 33/58] fix: output capability was reported as input capability

---
 src/emv_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 89db187..ac9c86e 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -2416,7 +2416,7 @@ int emv_addl_term_caps_get_string_list(
 	// Terminal Data Output Capability (byte 4)
 	// See EMV 4.4 Book 4, Annex A3, table 31
 	if (!(addl_term_caps[3] & EMV_ADDL_TERM_CAPS_OUTPUT_PRINT_OR_DISPLAY)) {
-		emv_str_list_add(&itr, "Terminal Data Input Capability: No print, electronic or display output");
+		emv_str_list_add(&itr, "Terminal Data Output Capability: No print, electronic or display output");
 	}
 	if ((addl_term_caps[3] & EMV_ADDL_TERM_CAPS_OUTPUT_PRINT_ATTENDANT)) {
 		emv_str_list_add(&itr, "Terminal Data Output Capability: Print or electronic, attendant");
-- 
2.43.0


From 0cb1f5946fa0cd5cbab5215d68a82bfafad6d725 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:07:17 +0000
Subject: [PATCH 34/58] fix: track 2 text ignored the string buffer length

---
 src/emv_strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index ac9c86e..99859dd 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -2890,6 +2890,11 @@ int emv_track2_equivalent_data_get_string(
 		return 0;
 	}
 
+	// Minimum string length
+	if (str_len < track2_len * 2 + 1) {
+		return -2;
+	}
+
 	// The easiest way to convert track2 data to a string is to simply extract
 	// each nibble and add 0x30 ('0') to create the equivalent ASCII character
 	// All ASCII digits from 0x30 to 0x3F are printable and it is only
-- 
2.43.0


From e8406bf241ebb82657f96a0881eb44574adf0e0f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:07:22 +0000
Subject: [PATCH 35/58] fix: PSE and PPSE names were not recognised and other
 names shown instead

---
 src/emv_strings.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 99859dd..31e4190 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -245,10 +245,11 @@ int emv_tlv_get_info(
 				"Identifies the name of the Dedicated File (DF) as described "
 				"in ISO/IEC 7816-4";
 			info->format = EMV_FORMAT_B;
-			if ((tlv->length == strlen(EMV_PSE) && strncmp((const char*)tlv->value, EMV_PSE, strlen(EMV_PSE))) ||
-				(tlv->length == strlen(EMV_PPSE) && strncmp((const char*)tlv->value, EMV_PPSE, strlen(EMV_PPSE)))
+			if (tlv->value &&
+				((tlv->length == strlen(EMV_PSE) && strncmp((const char*)tlv->value, EMV_PSE, strlen(EMV_PSE)) == 0) ||
+				(tlv->length == strlen(EMV_PPSE) && strncmp((const char*)tlv->value, EMV_PPSE, strlen(EMV_PPSE)) == 0))
 			) {
-				if (value_str_len > tlv->length) {
+				if (value_str && value_str_len > tlv->length) {
 					memcpy(value_str, tlv->value, tlv->length);
 					value_str[tlv->length] = 0;
 				}
-- 
2.43.0


From 71c6936c4e52fdc17e3f22112b8b681998ac3887 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:07:27 +0000
Subject: [PATCH 36/58] fix: empty single byte fields were read out of bounds

---
 src/emv_strings.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 31e4190..9a3ed47 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -398,7 +398,7 @@ int emv_tlv_get_info(
 				"The actual values to be used for the Transaction Type data "
 				"element are defined by the relevant payment system.";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -552,7 +552,7 @@ int emv_tlv_get_info(
 				"Indicates the type of account selected on the "
 				"terminal, coded as specified in Annex G";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -886,7 +886,7 @@ int emv_tlv_get_info(
 				"Indicates the type of cryptogram and the actions to be "
 				"performed by the terminal";
 			info->format = EMV_FORMAT_B;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -924,7 +924,7 @@ int emv_tlv_get_info(
 				"Indicates the environment of the terminal, its "
 				"communications capability, and its operational control";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -963,7 +963,7 @@ int emv_tlv_get_info(
 				"Indicates the method by which the PAN was entered, according "
 				"to the first two digits of the ISO 8583:1987 POS Entry Mode";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
-- 
2.43.0


From ef44b8f718e5a47309d4d637182ff560230e3563 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:07:32 +0000
Subject: [PATCH 37/58] fix: preferred name without value was copied from a
 NULL pointer

---
 src/emv_strings.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 9a3ed47..3addbb2 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1328,6 +1328,9 @@ static int emv_tlv_value_get_string(const struct emv_tlv_t* tlv, enum emv_format
 			}
 			else if (tlv->tag == EMV_TAG_9F12_APPLICATION_PREFERRED_NAME) {
 				// TODO: Convert EMV_TAG_9F12_APPLICATION_PREFERRED_NAME from the appropriate ISO/IEC 8859 code page to UTF-8
+				if (!tlv->value) {
+					return 0;
+				}
 				memcpy(value_str, tlv->value, tlv->length);
 				value_str[tlv->length] = 0; // NULL terminate
 				return 0;
-- 
2.43.0


From 34f0030674e0a042f317de286a9b24942aa56ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:07:51 +0000
Subject: [PATCH 38/58] fix: short third party data was read out of bounds

---
 src/emv_strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 3addbb2..13e41e1 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -5254,6 +5254,11 @@ int emv_mastercard_third_party_data_get_string_list(
 		char device_type[3];
 		const char* device_type_str;
 
+		if (tpd_len < 7) {
+			// Invalid Mastercard Third Party Data (field 9F6E) length
+			return 1;
+		}
+
 		memcpy(device_type, tpd_ptr, 2);
 		device_type[2] = 0; // NULL terminate
 
-- 
2.43.0


From f246b6c6628788887767852eb233f63ca9dc1b35 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:12:30 +0000
Subject: [PATCH 39/58] fix: repeated iso-codes initialisation left dangling
 references

---
 src/isocodes_lookup.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/isocodes_lookup.cpp b/src/isocodes_lookup.cpp
index 689f2a5..7f90009 100644
--- a/src/isocodes_lookup.cpp
+++ b/src/isocodes_lookup.cpp
@@ -23,7 +23,7 @@
 #include "emv_utils_config.h"
 
 #include <string>
-#include <vector>
+#include <deque>
 #include <map>
 #include <memory>
 #include <cstdio>
@@ -37,6 +37,9 @@ __BEGIN_DECLS
 #include <json-c/json_visit.h>
 __END_DECLS
 
+// NOTE: The maps below refer to the list entries. Therefore the lists must not
+// move their entries when more entries are added by another initialisation.
+
 typedef bool (*isocodes_list_append_func_t)(json_object* jso);
 
 struct isocodes_country_t {
@@ -45,7 +48,7 @@ struct isocodes_country_t {
 	std::string alpha3;
 	std::string numeric;
 };
-static std::vector<isocodes_country_t> country_list;
+static std::deque<isocodes_country_t> country_list;
 static std::map<std::string,const isocodes_country_t&> country_alpha2_map;
 static std::map<std::string,const isocodes_country_t&> country_alpha3_map;
 static std::map<unsigned int,const isocodes_country_t&> country_numeric_map;
@@ -55,7 +58,7 @@ struct isocodes_currency_t {
 	std::string alpha3;
 	std::string numeric;
 };
-static std::vector<isocodes_currency_t> currency_list;
+static std::deque<isocodes_currency_t> currency_list;
 static std::map<std::string,const isocodes_currency_t&> currency_alpha3_map;
 static std::map<unsigned int,const isocodes_currency_t&> currency_numeric_map;
 
@@ -64,7 +67,7 @@ struct isocodes_language_t {
 	std::string alpha2;
 	std::string alpha3;
 };
-static std::vector<isocodes_language_t> language_list;
+static std::deque<isocodes_language_t> language_list;
 static std::map<std::string,const isocodes_language_t&> language_alpha2_map;
 static std::map<std::string,const isocodes_language_t&> language_alpha3_map;
 
@@ -320,7 +323,6 @@ static bool build_country_list(json_object* json_root) noexcept
 		return false;
 	}
 
-	country_list.reserve(iso3166_1_array_length);
 	r = json_c_visit(iso3166_1_obj, 0, &json_array_visit_userfunc, (void*)&country_list_append);
 	if (r) {
 		return false;
@@ -379,7 +381,6 @@ static bool build_currency_list(json_object* json_root) noexcept
 		return false;
 	}
 
-	currency_list.reserve(iso4217_array_length);
 	r = json_c_visit(iso4217_obj, 0, &json_array_visit_userfunc, (void*)&currency_list_append);
 	if (r) {
 		return false;
@@ -433,7 +434,6 @@ static bool build_language_list(json_object* json_root) noexcept
 		return false;
 	}
 
-	language_list.reserve(iso_639_2_array_length);
 	r = json_c_visit(iso_639_2_obj, 0, &json_array_visit_userfunc, (void*)language_list_append);
 	if (r) {
 		return false;
-- 
2.43.0


From c8365bf54c27645a5606774b693dcbdcc12ec164 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:12:35 +0000
Subject: [PATCH 40/58] fix: empty iso-codes path was read out of bounds

---
 src/isocodes_lookup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/isocodes_lookup.cpp b/src/isocodes_lookup.cpp
index 7f90009..35f22df 100644
--- a/src/isocodes_lookup.cpp
+++ b/src/isocodes_lookup.cpp
@@ -466,7 +466,7 @@ int isocodes_init(const char* path)
 	} else {
 		path_str = ISOCODES_JSON_PATH;
 	}
-	if (path_str.back() != '/') {
+	if (!path_str.empty() && path_str.back() != '/') {
 		path_str += "/";
 	}
 
-- 
2.43.0


From bd998d51b8b8bde2167eb488fac22ff287d42467 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:12:40 +0000
Subject: [PATCH 41/58] fix: invalid numeric codes in iso-codes files ended the
 process

---
 src/isocodes_lookup.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/isocodes_lookup.cpp b/src/isocodes_lookup.cpp
index 35f22df..aecf267 100644
--- a/src/isocodes_lookup.cpp
+++ b/src/isocodes_lookup.cpp
@@ -72,6 +72,13 @@ static std::map<std::string,const isocodes_language_t&> language_alpha2_map;
 static std::map<std::string,const isocodes_language_t&> language_alpha3_map;
 
 
+static bool is_numeric_code(const std::string& str)
+{
+	// ISO 3166-1 and ISO 4217 numeric codes have no more than 3 digits
+	return !str.empty() && str.size() <= 3 &&
+		str.find_first_not_of("0123456789") == std::string::npos;
+}
+
 static bool country_list_append(json_object* jso)
 {
 	/* iso-codes package's iso_3166-1.json file should have this structure
@@ -126,7 +133,7 @@ static bool country_list_append(json_object* jso)
 		return false;
 	}
 	const char* numeric_str = json_object_get_string(numeric_obj);
-	if (!numeric_str) {
+	if (!numeric_str || !is_numeric_code(numeric_str)) {
 		return false;
 	}
 
@@ -178,7 +185,7 @@ static bool currency_list_append(json_object* jso)
 		return false;
 	}
 	const char* numeric_str = json_object_get_string(numeric_obj);
-	if (!numeric_str) {
+	if (!numeric_str || !is_numeric_code(numeric_str)) {
 		return false;
 	}
 
-- 
2.43.0


From 86d5ec393dc8ac3a5088897251532c6fe0c927ab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:18:06 +0000
Subject: [PATCH 42/58] fix: empty card service data was read out of bounds

---
 tools/print_helpers.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index e41caf1..2c3c41c 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -226,6 +226,10 @@ void print_atr_historical_bytes(const struct iso7816_atr_info_t* atr_info)
 
 		switch (tlv.tag) {
 			case ISO7816_COMPACT_TLV_CARD_SERVICE_DATA:
+				if (!tlv.length) {
+					r = -1;
+					break;
+				}
 				r = iso7816_card_service_data_get_string_list(tlv.value[0], str, sizeof(str));
 				break;
 
-- 
2.43.0


From 4752d4e25b5edc3ae49dc10c9454581c157cf294 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:20:25 +0000
Subject: [PATCH 43/58] fix: PC/SC disconnected an uninitialised handle when
 connecting failed

---
 src/pcsc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index eec1720..0f79a58 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -199,8 +199,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 	);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardConnect(SCARD_SHARE_DIRECT) failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
-		r = -2;
-		goto exit;
+		return -2;
 	}
 
 	// Request reader features
-- 
2.43.0


From 47abae1fecff92a4dbdc85ca126790d0b35981d9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:20:29 +0000
Subject: [PATCH 44/58] fix: PC/SC reader properties were searched with the
 wrong length

---
 src/pcsc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index 0f79a58..ece3e61 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -499,8 +499,14 @@ int pcsc_reader_get_property(
 			return 0;
 		}
 
-		tlv += (2 + tlv[1]);
+		if (tlv[1] > tlv_len - 2) {
+			// Invalid property length; ignore remaining properties
+			break;
+		}
+
+		// Compute length before advancing to next property
 		tlv_len -= (2 + tlv[1]);
+		tlv += (2 + tlv[1]);
 	}
 
 	// Otherwise, retrieve from IFD_PIN_PROPERTIES
-- 
2.43.0


From 52f1f78687762eef5c4d02460cbbd412517b80d9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:20:32 +0000
Subject: [PATCH 45/58] fix: PC/SC card was left connected when connecting
 reported an error

---
 src/pcsc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pcsc.c b/src/pcsc.c
index ece3e61..f7a1aaa 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -757,6 +757,7 @@ int pcsc_reader_connect(pcsc_reader_ctx_t reader_ctx)
 		);
 		if (r < 0) {
 			// Error during UID retrieval; assume card error
+			pcsc_reader_disconnect(reader);
 			return r;
 		} else if (r > 0) {
 			// Function not supported; assume contact card
-- 
2.43.0


From 0ed2ebf4486744eea39111953f90350e9bbbfe1e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:20:36 +0000
Subject: [PATCH 46/58] fix: PC/SC reader selection was lost when no card was
 detected

---
 src/pcsc.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index f7a1aaa..59a0cf2 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -645,7 +645,6 @@ int pcsc_wait_for_card(pcsc_ctx_t ctx, unsigned long timeout_ms, size_t* idx)
 	}
 
 	// No cards detected
-	*idx = -1;
 	return 1;
 }
 
-- 
2.43.0


From 489f6a48db0eca3f2282cedcfb0263d17e7bbd29 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:20:39 +0000
Subject: [PATCH 47/58] fix: PC/SC initialisation did not check memory
 allocations

---
 src/pcsc.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pcsc.c b/src/pcsc.c
index 59a0cf2..dbf82f9 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -109,6 +109,9 @@ int pcsc_init(pcsc_ctx_t* ctx)
 	}
 
 	*ctx = malloc(sizeof(struct pcsc_t));
+	if (!*ctx) {
+		return -1;
+	}
 	pcsc = *ctx;
 	memset(pcsc, 0, sizeof(*pcsc));
 
@@ -130,6 +133,10 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and retrieve the reader list
 	pcsc->reader_strings = malloc(pcsc->reader_strings_size);
+	if (!pcsc->reader_strings) {
+		pcsc_release(ctx);
+		return -1;
+	}
 	result = SCardListReaders(pcsc->context, NULL, pcsc->reader_strings, &pcsc->reader_strings_size);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardListReaders() failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
@@ -147,6 +154,10 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and populate reader objects
 	pcsc->readers = calloc(pcsc->reader_count, sizeof(struct pcsc_reader_t));
+	if (!pcsc->readers && pcsc->reader_count) {
+		pcsc_release(ctx);
+		return -1;
+	}
 	memset(pcsc->readers, 0, pcsc->reader_count * sizeof(struct pcsc_reader_t));
 	current_reader_name = pcsc->reader_strings;
 	for (size_t i = 0; i < pcsc->reader_count; ++i) {
@@ -157,6 +168,10 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and populate reader states
 	pcsc->reader_states = calloc(pcsc->reader_count, sizeof(SCARD_READERSTATE));
+	if (!pcsc->reader_states && pcsc->reader_count) {
+		pcsc_release(ctx);
+		return -1;
+	}
 	memset(pcsc->reader_states, 0, pcsc->reader_count * sizeof(SCARD_READERSTATE));
 	for (size_t i = 0; i < pcsc->reader_count; ++i) {
 		pcsc->reader_states[i].szReader = pcsc->readers[i].name;
-- 
2.43.0


From fd762cfc1ddc6a1da96f54104354b87b8bafdb6c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:20:43 +0000
Subject: [PATCH 48/58] fix: PC/SC context was released without having been
 established

---
 src/pcsc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index dbf82f9..94cd273 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -119,7 +119,8 @@ int pcsc_init(pcsc_ctx_t* ctx)
 	result = SCardEstablishContext(SCARD_SCOPE_SYSTEM, NULL, NULL, &pcsc->context);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardEstablishContext() failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
-		pcsc_release(ctx);
+		free(pcsc);
+		*ctx = NULL;
 		return -1;
 	}
 
-- 
2.43.0


From ecc8070281cde912edce8956f1a7f5fcae7d1eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:50 +0000
Subject: [PATCH 49/58] fix: compute maximum ATR bit rate without rounding the
 clock cycles per ETU

---
 src/iso7816.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso7816.c b/src/iso7816.c
index 865b4ad..3650e28 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -878,7 +878,7 @@ const char* iso7816_atr_TAi_get_string(const struct iso7816_atr_info_t* atr_info
 			atr_info->global.Di,
 			atr_info->global.Fi / atr_info->global.Di,
 			atr_info->global.fmax,
-			((unsigned long)(atr_info->global.fmax * 1000000)) / (atr_info->global.Fi / atr_info->global.Di)
+			((unsigned long)(atr_info->global.fmax * 1000000)) * atr_info->global.Di / atr_info->global.Fi
 		);
 
 		return str;
-- 
2.43.0


From 6cfc404c28af6af6e28ff4e34e8f913afc0a8b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:12 +0000
Subject: [PATCH 50/58] fix: report the correct offset of invalid data inside
 indefinite length fields

---
 tools/print_helpers.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index 2c3c41c..dae3f09 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -370,8 +370,12 @@ static int print_ber_buf_internal(
 
 		if (iso8825_ber_is_constructed(&tlv)) {
 			// If the field is constructed, only consider the tag and length
-			// to be valid until the value has been parsed
-			valid_bytes += (r - tlv.length);
+			// to be valid until the value has been parsed. Note that a field
+			// with indefinite length also has end-of-contents octets after
+			// the value.
+			size_t header_len = tlv.value - ((const uint8_t*)ptr + valid_bytes);
+			size_t eoc_len = r - header_len - tlv.length;
+			valid_bytes += header_len;
 
 			printf("\n");
 			r = print_ber_buf_internal(
@@ -392,6 +396,7 @@ static int print_ber_buf_internal(
 				// to avoid further processing of the data
 				return valid_bytes;
 			}
+			valid_bytes += eoc_len;
 
 		} else {
 			// If the field is not constructed, consider all of the bytes to
@@ -542,8 +547,12 @@ static int print_emv_buf_internal(
 
 		if (iso8825_ber_is_constructed(&tlv)) {
 			// If the field is constructed, only consider the tag and length
-			// to be valid until the value has been parsed
-			valid_bytes += (r - tlv.length);
+			// to be valid until the value has been parsed. Note that a field
+			// with indefinite length also has end-of-contents octets after
+			// the value.
+			size_t header_len = tlv.value - ((const uint8_t*)ptr + valid_bytes);
+			size_t eoc_len = r - header_len - tlv.length;
+			valid_bytes += header_len;
 
 			printf("\n");
 			r = print_emv_buf_internal(
@@ -564,6 +573,7 @@ static int print_emv_buf_internal(
 				// to avoid further processing of the data
 				return valid_bytes;
 			}
+			valid_bytes += eoc_len;
 
 		} else {
 			// If the field is not constructed, consider all of the bytes to
-- 
2.43.0


From 0f9d5bddc4aff0e38f2ffaf8b92445995eb8fb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:12 +0000
Subject: [PATCH 51/58] fix: do not report absent ATR historical bytes as
 invalid

---
 tools/print_helpers.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index dae3f09..50a40b1 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -203,6 +203,11 @@ void print_atr_historical_bytes(const struct iso7816_atr_info_t* atr_info)
 		return;
 	}
 
+	if (!atr_info->historical_bytes_len) {
+		// No COMPACT-TLV data objects
+		return;
+	}
+
 	r = iso7816_compact_tlv_itr_init(
 		atr_info->historical_bytes,
 		atr_info->historical_bytes_len,
-- 
2.43.0


From 2a87c5dcd6642ed5fb1f97ef073843313e9dc0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:12 +0000
Subject: [PATCH 52/58] fix: do not truncate the decoding of terminal
 capabilities and long CVM lists

---
 tools/emv-decode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/emv-decode.c b/tools/emv-decode.c
index a5b2814..3fcf846 100644
--- a/tools/emv-decode.c
+++ b/tools/emv-decode.c
@@ -551,7 +551,7 @@ int main(int argc, char** argv)
 		}
 
 		case EMV_DECODE_ADDL_TERM_CAPS: {
-			char str[1024];
+			char str[2048];
 
 			if (data_len != 5) {
 				fprintf(stderr, "EMV Additional Terminal Capabilities (field 9F40) must be exactly 5 bytes\n");
@@ -569,7 +569,7 @@ int main(int argc, char** argv)
 		}
 
 		case EMV_DECODE_CVM_LIST: {
-			char str[2048];
+			char str[16384];
 
 			r = emv_cvm_list_get_string_list(data, data_len, str, sizeof(str));
 			if (r) {
-- 
2.43.0


From 43190f1d581ed0f8756eafeed21efdbc78ca7239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:16 +0000
Subject: [PATCH 53/58] fix: accept 15 bytes of padding when the input aligns
 with the AES block size

---
 tools/print_helpers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index 50a40b1..03cce38 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -449,7 +449,7 @@ static int print_ber_buf_internal(
 			valid_bytes < len &&
 			(
 				((len & 0x7) == 0 && len - valid_bytes < 8) ||
-				((len & 0xF) == 0 && len - valid_bytes < 15)
+				((len & 0xF) == 0 && len - valid_bytes < 16)
 			)
 		) {
 			for (unsigned int i = 0; i < depth; ++i) {
@@ -626,7 +626,7 @@ static int print_emv_buf_internal(
 			valid_bytes < len &&
 			(
 				((len & 0x7) == 0 && len - valid_bytes < 8) ||
-				((len & 0xF) == 0 && len - valid_bytes < 15)
+				((len & 0xF) == 0 && len - valid_bytes < 16)
 			)
 		) {
 			for (unsigned int i = 0; i < depth; ++i) {
-- 
2.43.0


From eb7e9e123836807ea78c0fa050ec45a48e13b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:53 +0000
Subject: [PATCH 54/58] fix: emv-tool --debug-source ALL must enable all debug
 sources

---
 tools/emv-tool.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index b332630..83caf8b 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -106,6 +106,13 @@ static const char* debug_source_str[] = {
 	"APP",
 	"ALL",
 };
+static const unsigned int debug_source_value[] = {
+	EMV_DEBUG_SOURCE_TTL,
+	EMV_DEBUG_SOURCE_TAL,
+	EMV_DEBUG_SOURCE_EMV,
+	EMV_DEBUG_SOURCE_APP,
+	EMV_DEBUG_SOURCE_ALL,
+};
 static unsigned int debug_sources_mask = EMV_DEBUG_SOURCE_ALL;
 static const char* debug_level_str[] = {
 	"NONE",
@@ -213,8 +220,8 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 					argp_error(state, "Unknown debug source (--debug-source) argument \"%s\"", str);
 				}
 
-				// Found debug source string in list; shift into mask
-				debug_sources_mask |= 1 << i;
+				// Found debug source string in list; add to mask
+				debug_sources_mask |= debug_source_value[i];
 
 				arg = NULL;
 			}
-- 
2.43.0


From 9b7dec138cf21eb92de23245be458125cc884413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:53 +0000
Subject: [PATCH 55/58] fix: emv-tool must not loop forever when there is no
 more input

---
 tools/emv-tool.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index 83caf8b..78faf24 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -832,8 +832,9 @@ int main(int argc, char** argv)
 			}
 			printf("Enter number: ");
 			if (!fgets(s, sizeof(s), stdin)) {
-				printf("Invalid input. Try again.\n");
-				continue;
+				// End of input or input error; no application can be selected
+				printf("\nNo application selected\n");
+				goto emv_exit;
 			}
 			r = sscanf(s, "%u", &input);
 			if (r != 1) {
-- 
2.43.0


From aa57cdd069defcf3161843291ccefb1acc5796e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:53 +0000
Subject: [PATCH 56/58] fix: emv-tool must not start a transaction without the
 required amounts

---
 tools/emv-tool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index 78faf24..75e58f7 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -656,6 +656,7 @@ int main(int argc, char** argv)
 	) {
 		fprintf(stderr, "Transaction amount (--txn-amount) argument must be non-zero\n");
 		argp_help(&argp_config, stdout, ARGP_HELP_STD_HELP, argv[0]);
+		return 1;
 	}
 
 	if (txn_type == EMV_TRANSACTION_TYPE_CASHBACK &&
@@ -663,6 +664,7 @@ int main(int argc, char** argv)
 	) {
 		fprintf(stderr, "Secondary transaction amount (--txn-amount-other) must be non-zero for cashback transaction\n");
 		argp_help(&argp_config, stdout, ARGP_HELP_STD_HELP, argv[0]);
+		return 1;
 	}
 
 	r = emv_strings_init(isocodes_path, mcc_json);
-- 
2.43.0


From af97cd65a82a8d679610e156b3484e5c88105543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:53 +0000
Subject: [PATCH 57/58] fix: emv-tool transaction type and amounts must be
 numeric digits

---
 tools/emv-tool.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index 75e58f7..3b315fc 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -137,7 +137,7 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 			unsigned long value;
 			char* endptr = arg;
 
-			if (arg_len != 2) {
+			if (arg_len != 2 || strspn(arg, "0123456789") != arg_len) {
 				argp_error(state, "Transaction type (--txn-type) argument must be 2 numeric digits");
 			}
 
@@ -156,7 +156,7 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 			unsigned long value;
 			char* endptr = arg;
 
-			if (arg_len == 0) {
+			if (arg_len == 0 || strspn(arg, "0123456789") != arg_len) {
 				argp_error(state, "Transaction amount (--txn-amount) argument must be numeric digits");
 			}
 
@@ -179,7 +179,7 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 			unsigned long value;
 			char* endptr = arg;
 
-			if (arg_len == 0) {
+			if (arg_len == 0 || strspn(arg, "0123456789") != arg_len) {
 				argp_error(state, "Secondary transaction amount (--txn-amount-other) argument must be numeric digits");
 			}
 
-- 
2.43.0


From aea7f79b5d7d7940f3abdfcfe281deb2b5ad1a5b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:01:50 +0000
Subject: [PATCH 58/58] fix: emv-decode must accept trailing white space after
 hex digits

---
 tools/emv-decode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/emv-decode.c b/tools/emv-decode.c
index 3fcf846..a18b5dd 100644
--- a/tools/emv-decode.c
+++ b/tools/emv-decode.c
@@ -362,6 +362,10 @@ static int parse_hex(const char* hex, void* buf, size_t* buf_len)
 			str[str_idx++] = *hex;
 			++hex;
 		}
+		if (str_idx == 0 && *buf_len) {
+			// Only trailing spaces remain
+			break;
+		}
 		if (str_idx != 2) {
 			// Uneven number of hex digits
 			return 1;
-- 
2.43.0

