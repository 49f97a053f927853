## term-type 1
0/30=30	Operational Control: Cardholder
0/30=20	Operational Control: Merchant
0/30=10	Operational Control: Financial Institution
0/FF:01,02,03,04,05,06,07,08,09,0A,0B,0C,0D,0E,0F,40,41,42,43,44,45,46,47,48,49,4A,4B,4C,4D,4E,4F,80,81,82,83,84,85,86,87,88,89,8A,8B,8C,8D,8E,8F,C0,C1,C2,C3,C4,C5,C6,C7,C8,C9,CA,CB,CC,CD,CE,CF	Operational Control: Unknown
0/FF:07,08,0F,10,17,18,1F,20,27,28,2F,30,37,38,3F,40,47,48,4F,50,57,58,5F,60,67,68,6F,70,77,78,7F,80,87,88,8F,90,97,98,9F,A0,A7,A8,AF,B0,B7,B8,BF,C0,C7,C8,CF,D0,D7,D8,DF,E0,E7,E8,EF,F0,F7,F8,FF	Environment: Unknown
0/07=04	Environment: Unattended, online only
0/07=05	Environment: Unattended, offline with online capability
0/07=06	Environment: Unattended, offline only
0/07=01	Environment: Attended, online only
0/07=02	Environment: Attended, offline with online capability
0/07=03	Environment: Attended, offline only
## term-caps 3
0/80=80	Card Data Input Capability: Manual key entry
0/40=40	Card Data Input Capability: Magnetic stripe
0/20=20	Card Data Input Capability: IC with contacts
0/1F!00	Card Data Input Capability: RFU
0/FF=00	Card Data Input Capability: None
1/80=80	CVM Capability: Plaintext PIN for ICC verification
1/FF=00	CVM Capability: None
1/40=40	CVM Capability: Enciphered PIN for online verification
1/20=20	CVM Capability: Signature
1/10=10	CVM Capability: Enciphered PIN for offline verification (RSA ODE)
1/08=08	CVM Capability: No CVM required
1/04=04	CVM Capability: Online Biometric
1/02=02	CVM Capability: Offline Biometric
1/01=01	CVM Capability: Enciphered PIN for offline verification (ECC ODE)
2/80=80	Security Capability: Static Data Authentication (SDA)
2/FF=00	Security Capability: None
2/40=40	Security Capability: Dynamic Data Authentication (DDA)
2/20=20	Security Capability: Card capture
2/08=08	Security Capability: Combined DDA/Application Cryptogram Generation (CDA)
2/04=04	Security Capability: Extended Data Authentication (XDA)
2/13!00	Security Capability: RFU
## pos-entry-mode 1
0/FF=99	Same as original transaction
0/FF=95	Integrated circuit card (ICC). CVV may not be checked.
0/FF=91	Auto entry via contactless magnetic stripe
0/FF=90	Magnetic stripe as read from track 2. CVV can be checked.
0/FF=80	Fallback from integrated circuit card (ICC) to magnetic stripe
0/FF=10	Merchant has Cardholder Credentials on File
0/FF=07	Auto entry via contactless EMV
0/FF=05	Integrated circuit card (ICC). CVV can be checked.
0/FF=04	OCR
0/FF=03	Optical Code
0/FF=02	Magnetic stripe
0/FF=01	Manual PAN entry
0/FF=00	Unknown
## aip 2
0/80=80	Extended Data Authentication (XDA) is supported
0/40=40	Static Data Authentication (SDA) is supported
0/20=20	Dynamic Data Authentication (DDA) is supported
0/10=10	Cardholder verification is supported
0/08=08	Terminal risk management is to be performed
0/04=04	Issuer authentication is supported
0/02=02	On device cardholder verification is supported
0/01=01	Combined DDA/Application Cryptogram Generation (CDA) is supported
1/80=80	Contactless EMV mode is supported
1/40=40	Mobile phone
1/20=20	Contactless transaction
1/1E!00	RFU
1/01=01	Relay Resistance Protocol (RRP) is supported
## auc 2
0/80=80	Valid for domestic cash transactions
0/40=40	Valid for international cash transactions
0/20=20	Valid for domestic goods
0/10=10	Valid for international goods
0/08=08	Valid for domestic services
0/04=04	Valid for international services
0/02=02	Valid at ATMs
0/01=01	Valid at terminals other than ATMs
1/80=80	Domestic cashback allowed
1/40=40	International cashback allowed
1/3F!00	RFU
## account-type 1
0/FF=30	Credit
0/FF=20	Cheque/Debit
0/FF=10	Savings
0/FF=00	Default
## tvr 5
0/80=80	Offline data authentication was not performed
0/40=40	Static Data Authentication (SDA) failed
0/20=20	Integrated circuit card (ICC) data missing
0/10=10	Card appears on terminal exception file
0/08=08	Dynamic Data Authentication (DDA) failed
0/04=04	Combined DDA/Application Cryptogram Generation (CDA) failed
0/02=02	Static Data Authentication (SDA) selected
0/01=01	Extended Data Authentication (XDA) selected
1/80=80	ICC and terminal have different application versions
1/40=40	Expired application
1/20=20	Application not yet effective
1/10=10	Requested service not allowed for card product
1/08=08	New card
1/04=04	RFU
1/02=02	Biometric performed and successful
1/01=01	Biometric template format not supported
2/80=80	Cardholder verification was not successful
2/40=40	Unrecognised CVM
2/20=20	PIN Try Limit exceeded
2/10=10	PIN entry required and PIN pad not present or not working
2/08=08	PIN entry required, PIN pad present, but PIN was not entered
2/04=04	Online CVM captured
2/02=02	Biometric required but Biometric capture device not working
2/01=01	Biometric required, Biometric capture device present, but Biometric Subtype entry was bypassed
3/80=80	Transaction exceeds floor limit
3/40=40	Lower consecutive offline limit exceeded
3/20=20	Upper consecutive offline limit exceeded
3/10=10	Transaction selected randomly for online processing
3/08=08	Merchant forced transaction online
3/04=04	Biometric Try Limit exceeded
3/02=02	A selected Biometric Type not supported
3/01=01	XDA signature verification failed
4/80=80	Default TDOL used
4/40=40	Issuer authentication failed
4/20=20	Script processing failed before final GENERATE AC
4/10=10	Script processing failed after final GENERATE AC
4/04=04	CA ECC key missing
4/02=02	ECC key recovery failed
4/09!00	Reserved for use by the EMV Contactless Specifications
## cid 1
0/C0=C0	Application Cryptogram (AC) type: RFU
0/C0=80	Application Cryptogram (AC) type: Authorisation Request Cryptogram (ARQC)
0/C0=40	Application Cryptogram (AC) type: Transaction Certificate (TC)
0/C0=00	Application Cryptogram (AC) type: Application Authentication Cryptogram (AAC)
0/30=30	Payment System-specific cryptogram: 0x30
0/30=20	Payment System-specific cryptogram: 0x20
0/30=10	Payment System-specific cryptogram: 0x10
0/0F:01,02,03,04,05,06,07	No advice required
0/08=08	Advice required
0/07=01	Advice: Service not allowed
0/04=04	Advice: RFU
0/07=02	Advice: PIN Try Limit exceeded
0/07=03	Advice: Issuer authentication failed
## ttq 4
0/80=80	Mag-stripe mode supported
0/80=00	Mag-stripe mode not supported
0/40=40	RFU
0/20=20	EMV mode supported
0/20=00	EMV mode not supported
0/10=10	EMV contact chip supported
0/10=00	EMV contact chip not supported
0/08=00	Online capable reader
0/08=08	Offline-only reader
0/04=04	Online PIN supported
0/04=00	Online PIN not supported
0/02=02	Signature supported
0/02=00	Signature not supported
0/01=01	Offline Data Authentication for Online Authorizations supported
0/01=00	Offline Data Authentication for Online Authorizations not supported
1/80=80	Online cryptogram required
1/80=00	Online cryptogram not required
1/40=40	CVM required
1/40=00	CVM not required
1/20=20	(Contact Chip) Offline PIN supported
1/20=00	(Contact Chip) Offline PIN not supported
1/1F!00	RFU
2/80=80	Issuer Update Processing supported
2/80=00	Issuer Update Processing not supported
2/40=40	Consumer Device CVM supported
2/40=00	Consumer Device CVM not supported
2/08=08	Consumer Device CVM required
2/37!00	RFU
3/80=80	fDDA v1.0 Supported
3/7F!00	RFU
## ctq 2
0/80=80	Online PIN Required
0/40=40	Signature Required
0/20=20	Go Online if Offline Data Authentication Fails and Reader is online capable
0/10=10	Switch Interface if Offline Data Authentication fails and Reader supports contact chip
0/08=08	Go Online if Application Expired
0/04=04	Switch Interface for Cash Transactions
0/02=02	Switch Interface for Cashback Transactions
0/01=01	Not valid for contactless ATM transactions
1/80=80	Consumer Device CVM Performed
1/40=40	Card supports Issuer Update Processing at the POS
1/3F!00	RFU
## amex-cl-caps 1
0/C8=C8	EMV and Mag-stripe CVM Required
0/C8=C0	EMV and Mag-stripe CVM Not Required
0/C8=80	Deprecated - EMV and Mag-stripe
0/C8=48	Mag-stripe CVM Required
0/C8=40	Mag-stripe CVM Not Required
0/48=08	Not Available for Use
0/C8=00	Deprecated
## amex-enh-caps 4
0/80=80	Contact mode supported
0/40=40	Contactless Mag-Stripe Mode supported
0/20=20	Contactless EMV full online mode supported (legacy feature and no longer supported)
0/10=10	Contactless EMV partial online mode supported
0/08=08	Contactless Mobile Supported
0/04=04	Try Another Interface after a decline
0/03!00	RFU
1/80=80	Mobile CVM supported
1/40=40	Online PIN supported
1/20=20	Signature supported
1/10=10	Plaintext Offline PIN supported
1/0F!00	RFU
2/80=80	Reader is offline only
2/40=40	CVM Required
2/3F!00	RFU
3/80=80	Terminal exempt from No CVM checks
3/40=40	Delayed Authorisation Terminal
3/20=20	Transit Terminal
3/18!00	RFU
3/07=03	C-4 kernel version 2.7
3/07=02	C-4 kernel version 2.4 - 2.6
3/07=01	C-4 kernel version 2.2 - 2.3
3/07:00,04,05,06,07	C-4 kernel version unknown
## txn-type 1
0/FF=30	Inquiry
0/FF=20	Refund
0/FF=09	Cashback
0/FF=01	Cash
0/FF=00	Goods and services
## card-service 1
0/80=80	Application selection: by full DF name
0/40=40	Application selection: by partial DF name
0/20=20	BER-TLV data objects available in EF.DIR
0/10=10	BER-TLV data objects available in EF.ATR
0/0E=08	EF.DIR and EF.ATR access services: by READ BINARY command (transparent structure)
0/0E=04	EF.DIR and EF.ATR access services: by GET DATA command (TLV structure)
0/0E:02,06,0A,0C,0E	EF.DIR and EF.ATR access services: Unknown value
0/0E=00	EF.DIR and EF.ATR access services: by READ RECORD(S) command (record structure)
0/01=01	Card without MF
0/01=00	Card with MF
## card-caps 3
0/80=80	DF selection: by full DF NAME
0/40=40	DF selection: by partial DF NAME
0/20=20	DF selection: by path
0/10=10	DF selection: by file identifier
0/08=08	DF selection: implicit
0/04=04	Short EF identifier supported
0/02=02	Record number supported
0/01=01	Record identifier supported
1/80=80	EFs of TLV structure supported
1/60=60	Behaviour of write functions: write AND
1/60=40	Behaviour of write functions: write OR
1/60=20	Behaviour of write functions: proprietary
1/60=00	Behaviour of write functions: one-time write
1/10=10	FF as first byte of BER-TLV tag is valid
1/10=00	FF as first byte of BER-TLV tag is invalid / padding
1/0F=0E	Data unit size: 8192 bytes
1/0F=04	Data unit size: 8 bytes
1/0F=07	Data unit size: 64 bytes
1/0F=0A	Data unit size: 512 bytes
1/0F=0D	Data unit size: 4096 bytes
1/0F=03	Data unit size: 4 bytes
1/0F=06	Data unit size: 32 bytes
1/0F=09	Data unit size: 256 bytes
1/0F=0C	Data unit size: 2048 bytes
1/0F=02	Data unit size: 2 bytes
1/0F=0F	Data unit size: 16384 bytes
1/0F=05	Data unit size: 16 bytes
1/0F=08	Data unit size: 128 bytes
1/0F=0B	Data unit size: 1024 bytes
1/0F=01	Data unit size: 1 bytes
2/80=80	Command chaining
2/40=40	Extended Lc and Le fields
2/18=00	No logical channel
2/18=08	Logical channel number assignment: by the interface device
2/18=10	Logical channel number assignment: by the card
2/1F:07,0F,17	Maximum number of logical channels: 8 or more
2/1F:06,0E,16	Maximum number of logical channels: 7
2/1F:05,0D,15	Maximum number of logical channels: 6
2/1F:04,0C,14	Maximum number of logical channels: 5
2/1F:03,0B,13	Maximum number of logical channels: 4
2/1F:02,0A,12	Maximum number of logical channels: 3
2/1F:01,09,11	Maximum number of logical channels: 2
2/1F:00,08,10	Maximum number of logical channels: 1
## addl-term-caps 5
0/80=80	Transaction Type Capability: Cash
0/40=40	Transaction Type Capability: Goods
0/20=20	Transaction Type Capability: Services
0/10=10	Transaction Type Capability: Cashback
0/08=08	Transaction Type Capability: Inquiry
0/04=04	Transaction Type Capability: Transfer
0/02=02	Transaction Type Capability: Payment
0/01=01	Transaction Type Capability: Administrative
0/FF=00&1/FF=00	Transaction Type Capability: None
1/80=80	Transaction Type Capability: Cash deposit
1/7F!00	Transaction Type Capability: RFU
2/80=80	Terminal Data Input Capability: Numeric keys
2/FF=00	Terminal Data Input Capability: None
2/40=40	Terminal Data Input Capability: Alphabetic and special characters keys
2/20=20	Terminal Data Input Capability: Command keys
2/10=10	Terminal Data Input Capability: Function keys
2/0F!00	Terminal Data Input Capability: RFU
3/80=80	Terminal Data Output Capability: Print or electronic, attendant
3/40=40	Terminal Data Output Capability: Print or electronic, cardholder
3/F0=00	Terminal Data Output Capability: No print, electronic or display output
3/20=20	Terminal Data Output Capability: Display, attendant
3/10=10	Terminal Data Output Capability: Display cardholder
3/02=02	Terminal Data Output Capability: Code table 10
3/01=01	Terminal Data Output Capability: Code table 9
3/0C!00	Terminal Data Output Capability: RFU
4/80=80	Terminal Data Output Capability: Code table 8
4/40=40	Terminal Data Output Capability: Code table 7
4/20=20	Terminal Data Output Capability: Code table 6
4/10=10	Terminal Data Output Capability: Code table 5
4/08=08	Terminal Data Output Capability: Code table 4
4/04=04	Terminal Data Output Capability: Code table 3
4/02=02	Terminal Data Output Capability: Code table 2
4/01=01	Terminal Data Output Capability: Code table 1
## tsi 2
0/80=80	Offline data authentication was performed
0/40=40	Cardholder verification was performed
0/20=20	Card risk management was performed
0/10=10	Issuer authentication was performed
0/08=08	Terminal risk management was performed
0/04=04	Script processing was performed
0/03!00|1/FF!00	RFU
## trmd 8
0/80=80	Restart supported
0/40=40	Enciphered PIN verified online (Contactless)
0/20=20	Signature (paper) (Contactless)
0/10=10	Enciphered PIN verification performed by ICC (Contactless)
0/08=08	No CVM required (Contactless)
0/04=04	CDCVM (Contactless)
0/02=02	Plaintext PIN verification performed by ICC (Contactless)
0/01=01	Present and Hold supported
1/80=80	CVM Limit exceeded
1/40=40	Enciphered PIN verified online (Contact)
1/20=20	Signature (paper) (Contact)
1/10=10	Enciphered PIN verification performed by ICC (Contact)
1/08=08	No CVM required (Contact)
1/04=04	CDCVM (Contact)
1/02=02	Plaintext PIN verification performed by ICC (Contact)
2/80=80	Mag-stripe mode contactless transactions not supported
2/40=40	EMV mode contactless transactions not supported
2/20=20	CDCVM without CDA supported
3/80=80	CDCVM bypass requested
3/40=40	SCA exempt
1/01=01|2/1F!00|3/3F!00|4/FF!00|5/FF!00|6/FF!00|7/FF!00	RFU
## cvm-results 3
0/FF:7F,BF,FF	CVM Performed: Invalid CV Rule
0/FF=3F	CVM Performed: CVM not performed
0/3F=1F	CVM Performed: No CVM required
0/3F=1E	CVM Performed: Signature (paper)
0/3F:10,11,12,13,14,15,16,17,18,19,1A,1B,1C,1D,20,21,22,23,24,25,26,27,28,29,2A,2B,2C,2D,2E,2F,30,31,32,33,34,35,36,37,38,39,3A,3B,3C,3D,3E	CVM Performed: Unknown CVM
0/3F=0F	CVM Performed: Voice biometric verified online
0/3F=0E	CVM Performed: Voice biometric verified offline (by ICC)
0/3F=0D	CVM Performed: Iris biometric verified online
0/3F=0C	CVM Performed: Iris biometric verified offline (by ICC)
0/3F=0B	CVM Performed: Palm biometric verified online
0/3F=0A	CVM Performed: Palm biometric verified offline (by ICC)
0/3F=09	CVM Performed: Finger biometric verified online
0/3F=08	CVM Performed: Finger biometric verified offline (by ICC)
0/3F=07	CVM Performed: Facial biometric verified online
0/3F=06	CVM Performed: Facial biometric verified offline (by ICC)
0/3F=05	CVM Performed: Enciphered PIN verification performed by ICC and signature
0/3F=04	CVM Performed: Enciphered PIN verification performed by ICC
0/3F=03	CVM Performed: Plaintext PIN verification performed by ICC and signature
0/3F=02	CVM Performed: Enciphered PIN verified online
0/3F=01	CVM Performed: Plaintext PIN verification performed by ICC
0/3F=00	CVM Performed: Fail CVM processing
1/FE:0A,0C,0E,10,12,14,16,18,1A,1C,1E,20,22,24,26,28,2A,2C,2E,30,32,34,36,38,3A,3C,3E,40,42,44,46,48,4A,4C,4E,50,52,54,56,58,5A,5C,5E,60,62,64,66,68,6A,6C,6E,70,72,74,76,78,7A,7C,7E,80,82,84,86,88,8A,8C,8E,90,92,94,96,98,9A,9C,9E,A0,A2,A4,A6,A8,AA,AC,AE,B0,B2,B4,B6,B8,BA,BC,BE,C0,C2,C4,C6,C8,CA,CC,CE,D0,D2,D4,D6,D8,DA,DC,DE,E0,E2,E4,E6,E8,EA,EC,EE,F0,F2,F4,F6,F8,FA,FC,FE	CVM Condition: Unknown condition
1/FF=01	CVM Condition: If unattended cash
1/FF=08	CVM Condition: If transaction is in the application currency and is under Y value
1/FF=06	CVM Condition: If transaction is in the application currency and is under X value
1/FF=09	CVM Condition: If transaction is in the application currency and is over Y value
1/FF=07	CVM Condition: If transaction is in the application currency and is over X value
1/FF=03	CVM Condition: If terminal supports the CVM
1/FF=05	CVM Condition: If purchase with cashback
1/FF=02	CVM Condition: If not unattended cash and not manual cash and not purchase with cashback
1/FF=04	CVM Condition: If manual cash
1/FF=00	CVM Condition: Always
2/FF=00	CVM Result: Unknown
2/FF=01	CVM Result: Failed
2/FF=02	CVM Result: Successful
2/FF!00&2/FF!01&2/FF!02	CVM Result: {2:d}
## iad-ccd 32
*	Application: CCD-Compliant
*	IAD Format: CCD Version 4.1
1/0F=05	Cryptogram Version: TDES
1/0F=06	Cryptogram Version: AES
*	Derivation Key Index (DKI): {2:x}
3/C0=40	Card Verification Results (CVR): Second GENERATE AC returned TC
3/C0=00	Card Verification Results (CVR): Second GENERATE AC returned AAC
3/C0=C0	Card Verification Results (CVR): Second GENERATE AC RFU
3/C0=80	Card Verification Results (CVR): Second GENERATE AC Not Requested
3/30=10	Card Verification Results (CVR): First GENERATE AC returned TC
3/30=20	Card Verification Results (CVR): First GENERATE AC returned ARQC
3/30=00	Card Verification Results (CVR): First GENERATE AC returned AAC
3/30=30	Card Verification Results (CVR): First GENERATE AC RFU
3/08=08	Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Performed
3/04=04	Card Verification Results (CVR): Offline Dynamic Data Authentication (DDA) Performed
3/02=02	Card Verification Results (CVR): Issuer Authentication Not Performed
3/01=01	Card Verification Results (CVR): Issuer Authentication Failed
*	Card Verification Results (CVR): PIN Try Counter is {4:h}
4/08=08	Card Verification Results (CVR): Offline PIN Verification Performed
4/04=04	Card Verification Results (CVR): Offline PIN Verification Performed and PIN Not Successfully Verified
4/02=02	Card Verification Results (CVR): PIN Try Limit Exceeded
4/01=01	Card Verification Results (CVR): Last Online Transaction Not Completed
5/80=80	Card Verification Results (CVR): Lower Offline Transaction Count Limit Exceeded
5/40=40	Card Verification Results (CVR): Upper Offline Transaction Count Limit Exceeded
5/20=20	Card Verification Results (CVR): Lower Cumulative Offline Amount Limit Exceeded
5/10=10	Card Verification Results (CVR): Upper Cumulative Offline Amount Limit Exceeded
5/08=08	Card Verification Results (CVR): Issuer-discretionary bit 1
5/04=04	Card Verification Results (CVR): Issuer-discretionary bit 2
5/02=02	Card Verification Results (CVR): Issuer-discretionary bit 3
5/01=01	Card Verification Results (CVR): Issuer-discretionary bit 4
6/F0!00	Card Verification Results (CVR): {6:h} Successfully Processed Issuer Script Commands Containing Secure Messaging
6/08=08	Card Verification Results (CVR): Issuer Script Processing Failed
6/04=04	Card Verification Results (CVR): Offline Data Authentication Failed on Previous Transaction
6/02=02	Card Verification Results (CVR): Go Online on Next Transaction Was Set
6/01=01	Card Verification Results (CVR): Unable to go Online
7/FF!00	Card Verification Results (CVR): RFU
## iad-mchip4 18
*	Application: M/Chip 4
*	Derivation Key Index (DKI): {0:x}
*	Cryptogram Version Number (CVN): {1:x}
1/06=00	Cryptogram: Mastercard Proprietary SKD session key
1/06=04	Cryptogram: EMV CSK session key
1/01=00	Cryptogram: Counters not included in AC data
1/01=01	Cryptogram: Counter included in AC data
2/C0=40	Card Verification Results (CVR): Second GENERATE AC returned TC
2/C0=00	Card Verification Results (CVR): Second GENERATE AC returned AAC
2/C0=C0	Card Verification Results (CVR): Second GENERATE AC RFU
2/C0=80	Card Verification Results (CVR): Second GENERATE AC Not Requested
2/30=10	Card Verification Results (CVR): First GENERATE AC returned TC
2/30=20	Card Verification Results (CVR): First GENERATE AC returned ARQC
2/30=00	Card Verification Results (CVR): First GENERATE AC returned AAC
2/30=30	Card Verification Results (CVR): First GENERATE AC RFU
2/08=08	Card Verification Results (CVR): Date Check Failed
2/04=04	Card Verification Results (CVR): Offline PIN Verification Performed
2/02=02	Card Verification Results (CVR): Offline Encrypted PIN Verification Performed
2/01=01	Card Verification Results (CVR): Offline PIN Verification Successful
3/80=80	Card Verification Results (CVR): Dynamic Data Authentication (DDA) Returned
3/40=40	Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in First GENERATE AC
3/20=20	Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in Second GENERATE AC
3/10=10	Card Verification Results (CVR): Issuer Authentication Performed
3/08=08	Card Verification Results (CVR): Card Issuer Action Codes (CIAC) Default Skipped on Cardholder Activated Terminal Level 3 (CAT3)
3/04=04	Card Verification Results (CVR): Offline Change PIN Result Successful
3/03!00	Card Verification Results (CVR): Issuer Discretionary
4/F0!00	Card Verification Results (CVR): Script Counter is {4:h}
4/0F!00	Card Verification Results (CVR): PIN Try Counter is {4:l}
5/80=80	Card Verification Results (CVR): Last Online Transaction Not Completed
5/40=40	Card Verification Results (CVR): Unable To Go Online
5/20=20	Card Verification Results (CVR): Offline PIN Verification Not Performed
5/10=10	Card Verification Results (CVR): Offline PIN Verification Failed
5/08=08	Card Verification Results (CVR): PTL Exceeded
5/04=04	Card Verification Results (CVR): International Transaction
5/02=02	Card Verification Results (CVR): Domestic Transaction
5/01=01	Card Verification Results (CVR): Terminal Erroneously Considers Offline PIN OK
6/80=80	Card Verification Results (CVR): Lower Consecutive Offline Limit Exceeded
6/40=40	Card Verification Results (CVR): Upper Consecutive Offline Limit Exceeded
6/20=20	Card Verification Results (CVR): Lower Cumulative Offline Limit Exceeded
6/10=10	Card Verification Results (CVR): Upper Cumulative Offline Limit Exceeded
6/08=08	Card Verification Results (CVR): Go Online On Next Transaction Was Set
6/04=04	Card Verification Results (CVR): Issuer Authentication Failed
6/02=02	Card Verification Results (CVR): Script Received
6/01=01	Card Verification Results (CVR): Script Failed
7/80=80	Card Verification Results (CVR): Lower Consecutive Counter 2 Limit Exceeded
7/40=40	Card Verification Results (CVR): Upper Consecutive Counter 2 Limit Exceeded
7/20=20	Card Verification Results (CVR): Lower Cumulative Accumulator 2 Limit Exceeded
7/10=10	Card Verification Results (CVR): Upper Cumulative Accumulator 2 Limit Exceeded
7/08=08	Card Verification Results (CVR): MTA Limit Exceeded
7/04=04	Card Verification Results (CVR): Number Of Days Offline Limit Exceeded
7/02=02	Card Verification Results (CVR): Match Found In Additional Check Table
7/01=01	Card Verification Results (CVR): No Match Found In Additional Check Table
## iad-mchipadv 20
*	Application: M/Chip Advance
*	Derivation Key Index (DKI): {0:x}
*	Cryptogram Version Number (CVN): {1:x}
1/06=00	Cryptogram: Mastercard Proprietary SKD session key
1/06=04	Cryptogram: EMV CSK session key
1/01=00	Cryptogram: Counters not included in AC data
1/01=01	Cryptogram: Counter included in AC data
2/C0=40	Card Verification Results (CVR): Second GENERATE AC returned TC
2/C0=00	Card Verification Results (CVR): Second GENERATE AC returned AAC
2/C0=C0	Card Verification Results (CVR): Second GENERATE AC RFU
2/C0=80	Card Verification Results (CVR): Second GENERATE AC Not Requested
2/30=10	Card Verification Results (CVR): First GENERATE AC returned TC
2/30=20	Card Verification Results (CVR): First GENERATE AC returned ARQC
2/30=00	Card Verification Results (CVR): First GENERATE AC returned AAC
2/30=30	Card Verification Results (CVR): First GENERATE AC RFU
2/08=08	Card Verification Results (CVR): Date Check Failed
2/04=04	Card Verification Results (CVR): Offline PIN Verification Performed
2/02=02	Card Verification Results (CVR): Offline Encrypted PIN Verification Performed
2/01=01	Card Verification Results (CVR): Offline PIN Verification Successful
3/80=80	Card Verification Results (CVR): Dynamic Data Authentication (DDA) Returned
3/40=40	Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in First GENERATE AC
3/20=20	Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in Second GENERATE AC
3/10=10	Card Verification Results (CVR): Issuer Authentication Performed
3/08=08	Card Verification Results (CVR): Card Issuer Action Codes (CIAC) Default Skipped on Cardholder Activated Terminal Level 3 (CAT3)
3/04=04	Card Verification Results (CVR): Offline Change PIN Result Successful
3/03!00	Card Verification Results (CVR): Issuer Discretionary
4/F0!00	Card Verification Results (CVR): Script Counter is {4:h}
4/0F!00	Card Verification Results (CVR): PIN Try Counter is {4:l}
5/80=80	Card Verification Results (CVR): Last Online Transaction Not Completed
5/40=40	Card Verification Results (CVR): Unable To Go Online
5/20=20	Card Verification Results (CVR): Offline PIN Verification Not Performed
5/10=10	Card Verification Results (CVR): Offline PIN Verification Failed
5/08=08	Card Verification Results (CVR): PTL Exceeded
5/04=04	Card Verification Results (CVR): International Transaction
5/02=02	Card Verification Results (CVR): Domestic Transaction
5/01=01	Card Verification Results (CVR): Terminal Erroneously Considers Offline PIN OK
6/80=80	Card Verification Results (CVR): Lower Consecutive Counter 1 Limit Exceeded
6/40=40	Card Verification Results (CVR): Upper Consecutive Counter 1 Limit Exceeded
6/20=20	Card Verification Results (CVR): Lower Cumulative Accumulator Limit Exceeded
6/10=10	Card Verification Results (CVR): Upper Cumulative Accumulator Limit Exceeded
6/08=08	Card Verification Results (CVR): Go Online On Next Transaction Was Set
6/04=04	Card Verification Results (CVR): Issuer Authentication Failed
6/02=02	Card Verification Results (CVR): Script Received
6/01=01	Card Verification Results (CVR): Script Failed
7/80=80	Card Verification Results (CVR): Lower Consecutive Counter 2 Limit Exceeded
7/40=40	Card Verification Results (CVR): Upper Consecutive Counter 2 Limit Exceeded
7/20=20	Card Verification Results (CVR): Lower Cumulative Accumulator 2 Limit Exceeded
7/10=10	Card Verification Results (CVR): Upper Cumulative Accumulator 2 Limit Exceeded
7/08=08	Card Verification Results (CVR): MTA Limit Exceeded
7/04=04	Card Verification Results (CVR): Number Of Days Offline Limit Exceeded
7/02=02	Card Verification Results (CVR): Match Found In Additional Check Table
7/01=01	Card Verification Results (CVR): No Match Found In Additional Check Table
## iad-vsdc013 7
*	Application: Visa Smart Debit/Credit (VSDC)
*	IAD Format: {2:h}
*	Derivation Key Index (DKI): {1:x}
*	Cryptogram Version Number (CVN): {2:x} (CVN{2:D})
4/C0=40	Card Verification Results (CVR): Second GENERATE AC returned TC
4/C0=00	Card Verification Results (CVR): Second GENERATE AC returned AAC
4/C0=C0	Card Verification Results (CVR): Second GENERATE AC RFU
4/C0=80	Card Verification Results (CVR): Second GENERATE AC Not Requested
4/30=10	Card Verification Results (CVR): First GENERATE AC returned TC
4/30=20	Card Verification Results (CVR): First GENERATE AC returned ARQC
4/30=00	Card Verification Results (CVR): First GENERATE AC returned AAC
4/30=30	Card Verification Results (CVR): First GENERATE AC RFU
4/08=08	Card Verification Results (CVR): Issuer Authentication performed and failed
4/04=04	Card Verification Results (CVR): Offline PIN verification performed
4/02=02	Card Verification Results (CVR): Offline PIN verification failed
4/01=01	Card Verification Results (CVR): Unable to go online
5/80=80	Card Verification Results (CVR): Last online transaction not completed
5/40=40	Card Verification Results (CVR): PIN Try Limit exceeded
5/20=20	Card Verification Results (CVR): Exceeded velocity checking counters
5/10=10	Card Verification Results (CVR): New card
5/08=08	Card Verification Results (CVR): Issuer Authentication failure on last online transaction
5/04=04	Card Verification Results (CVR): Issuer Authentication not performed after online authorization
5/02=02	Card Verification Results (CVR): Application blocked by card because PIN Try Limit exceeded
5/01=01	Card Verification Results (CVR): Offline static data authentication failed on last transaction
6/F0!00	Card Verification Results (CVR): Script Counter is {6:h}
6/08=08	Card Verification Results (CVR): Issuer Script processing failed
6/04=04	Card Verification Results (CVR): Offline dynamic data authentication failed on last transaction
6/02=02	Card Verification Results (CVR): Offline dynamic data authentication performed
6/01=01	Card Verification Results (CVR): PIN verification command not received for a PIN-Expecting card
## iad-vsdc24 32
*	Application: Visa Smart Debit/Credit (VSDC)
*	IAD Format: {1:h}
*	Cryptogram Version Number (CVN): {1:x} (CVN'{1:x}')
*	Derivation Key Index (DKI): {2:x}
3/FF=00	No CDCVM
3/F0=10	Card Verification Results (CVR): Visa Mobile Payment Application (VMPA)
3/F0=70	Card Verification Results (CVR): Verified in the cloud
3/F0=80	Card Verification Results (CVR): Verified by the mobile device OS
3/F0=60	Card Verification Results (CVR): Terminal
3/F0=40	Card Verification Results (CVR): TEE app
3/F0=50	Card Verification Results (CVR): Mobile Application
3/F0=20	Card Verification Results (CVR): MG
3/F0=30	Card Verification Results (CVR): Co-residing SE app
3/0F=06	Card Verification Results (CVR): Voice biometric
3/0F=0D	Card Verification Results (CVR): Signature
3/0F=01	Card Verification Results (CVR): Passcode
3/0F=07	Card Verification Results (CVR): Palm biometric
3/0F=0E	Card Verification Results (CVR): Online PIN
3/0F=03	Card Verification Results (CVR): Mobile device pattern
3/0F=05	Card Verification Results (CVR): Iris biometric
3/0F=02	Card Verification Results (CVR): Finger biometric
3/0F=04	Card Verification Results (CVR): Facial biometric
4/C0=40	Card Verification Results (CVR): Second GENERATE AC returned TC
4/C0=00	Card Verification Results (CVR): Second GENERATE AC returned AAC
4/C0=C0	Card Verification Results (CVR): Second GENERATE AC RFU
4/C0=80	Card Verification Results (CVR): Second GENERATE AC Not Requested
4/30=10	Card Verification Results (CVR): GPO returned TC
4/30=20	Card Verification Results (CVR): GPO returned ARQC
4/30=00	Card Verification Results (CVR): GPO returned AAC
4/30=30	Card Verification Results (CVR): GPO RFU
4/08=08	Card Verification Results (CVR): Issuer Authentication performed and failed
4/04=04	Card Verification Results (CVR): CDCVM successfully performed
4/02=02	Card Verification Results (CVR): RFU
4/01=01	Card Verification Results (CVR): Unable to go online
5/80=80	Card Verification Results (CVR): Last online transaction not completed
5/40=40	Card Verification Results (CVR): PIN Try Limit exceeded
5/20=20	Card Verification Results (CVR): Exceeded velocity checking counters
5/10=10	Card Verification Results (CVR): New card
5/08=08	Card Verification Results (CVR): Issuer Authentication failure on last online transaction
5/04=04	Card Verification Results (CVR): Issuer Authentication not performed after online authorization
5/02=02	Card Verification Results (CVR): Application blocked by card because PIN Try Limit exceeded
5/01=01	Card Verification Results (CVR): Offline static data authentication failed on last transaction
6/F0!00	Card Verification Results (CVR): Script Counter is {6:h}
6/08=08	Card Verification Results (CVR): Issuer Script processing failed
6/04=04	Card Verification Results (CVR): Offline dynamic data authentication failed on last transaction
6/02=02	Card Verification Results (CVR): Offline dynamic data authentication performed
6/01=01	Card Verification Results (CVR): PIN verification command not received for a PIN-Expecting card
7/80=80	Card Verification Results (CVR): Consumer Device is not in debug mode
7/40=40	Card Verification Results (CVR): Consumer Device is not a rooted device
7/20=20	Card Verification Results (CVR): Mobile Application is not hooked
7/10=10	Card Verification Results (CVR): Mobile Application integrity is intact
7/08=08	Card Verification Results (CVR): Consumer Device has data connectivity
7/04=04	Card Verification Results (CVR): Consumer Device is genuine
7/02=02	Card Verification Results (CVR): CDCVM successfully performed
7/01=01	Card Verification Results (CVR): Secure Messaging uses EMV Session key-based derivation
## csu 4
0/80=80	Card Status Update (CSU): Proprietary Authentication Data Included
0/0F!00	Card Status Update (CSU): PIN Try Counter = {0:l}
1/80=80	Card Status Update (CSU): Issuer Approves Online Transaction
1/40=40	Card Status Update (CSU): Card Block
1/20=20	Card Status Update (CSU): Application Block
1/10=10	Card Status Update (CSU): Update PIN Try Counter
1/08=08	Card Status Update (CSU): Set Go Online on Next Transaction
1/04=04	Card Status Update (CSU): CSU Created by Proxy for the Issuer
1/03=00	Card Status Update (CSU): Do Not Update Offline Counters
1/03=01	Card Status Update (CSU): Set Offline Counters to Upper Offline Limits
1/03=02	Card Status Update (CSU): Reset Offline Counters to Zero
1/03=03	Card Status Update (CSU): Add Transaction to Offline Counter
3/FF!00	Card Status Update (CSU): Issuer Discretionary 0x{3:x}
## visa-ffi 4
0/E0!20	Form Factor Indicator (FFI): Version Number {0:t}
0/FF=20	Consumer Payment Device Form Factor: Card
0/FF=21	Consumer Payment Device Form Factor: Mini-card
0/FF=22	Consumer Payment Device Form Factor: Non-card Form Factor
0/FF=23	Consumer Payment Device Form Factor: Consumer mobile phone
0/FF=24	Consumer Payment Device Form Factor: Wrist-worn device
0/E0=20&0/FF!20&0/FF!21&0/FF!22&0/FF!23&0/FF!24	Consumer Payment Device Form Factor: Unknown
0/E0=20&1/80=80	Consumer Payment Device Features: Passcode Capable
0/E0=20&1/40=40	Consumer Payment Device Features: Signature Panel
0/E0=20&1/20=20	Consumer Payment Device Features: Hologram
0/E0=20&1/10=10	Consumer Payment Device Features: CVV2
0/E0=20&1/08=08	Consumer Payment Device Features: Two-way Messaging
0/E0=20&1/04=04	Consumer Payment Device Features: Cloud Based Payment Credentials
0/E0=20&1/02=02	Consumer Payment Device Features: Biometric Cardholder Verification Capable
0/E0=20&1/01=01	Consumer Payment Device Features: RFU
0/E0=20&2/FF!00	Form Factor Indicator (FFI) byte 3: RFU
0/E0=20&3/0E!00	Payment Transaction Technology: Unknown
0/E0=20&3/0F=00	Payment Transaction Technology: Proximity Contactless interface using ISO 14443 (including NFC)
0/E0=20&3/0F=01	Payment Transaction Technology: Not used in VCPS
0/E0=20&3/F0!00	Payment Transaction Technology: RFU
