//! What the EMV books (and ISO/IEC 7813 for the service code) assign to tags, codes and bits, in the tool's
//! wording. This is the oracle's own copy: transcribed once and reviewed against the books, never read from
//! the code under test.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sev {
	Normal,
	Warning,
	Error,
}
use Sev::{Error as E, Normal as N, Warning as W};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
	/// a single bit: listed exactly when set
	Flag,
	/// multi-bit fields: always listed, with their value
	Number,
	GenAc1,
	GenAc2,
	FormatCode,
	CryptogramVersion,
	Method,
	Condition,
	CvmResult,
}
use Kind::*;

#[derive(Clone, Copy, Debug)]
pub struct Field {
	pub byte: usize,
	/// the highest bit of the field within its byte
	pub hi: u8,
	pub width: u8,
	pub sev: Sev,
	pub kind: Kind,
	pub text: &'static str,
}
const fn f(byte: usize, hi: u8, width: u8, sev: Sev, kind: Kind, text: &'static str) -> Field {
	Field {
		byte,
		hi,
		width,
		sev,
		kind,
		text,
	}
}

/// The EMV data dictionary: tag, name. Written down once from EMV Book 3 annex A (as the tool words it) and
/// reviewed against it; it is an independent copy, not generated at build time.
pub const TAG_NAMES: &[(&[u8], &str)] = &[
	(&[0x42], "Issuer Identification Number (IIN)"),
	(&[0x4F], "Application Dedicated File (ADF) Name"),
	(&[0x50], "Application Label"),
	(&[0x57], "Track 2 Equivalent Data"),
	(&[0x5A], "Application Primary Account Number (PAN)"),
	(&[0x5F, 0x20], "Cardholder Name"),
	(&[0x5F, 0x24], "Application Expiration Date"),
	(&[0x5F, 0x25], "Application Effective Date"),
	(&[0x5F, 0x28], "Issuer Country Code"),
	(&[0x5F, 0x2A], "Transaction Currency Code"),
	(&[0x5F, 0x2D], "Language Preference"),
	(&[0x5F, 0x30], "Service Code"),
	(&[0x5F, 0x34], "Application Primary Account Number (PAN) Sequence Number"),
	(&[0x5F, 0x36], "Transaction Currency Exponent"),
	(&[0x5F, 0x50], "Issuer URL"),
	(&[0x5F, 0x53], "International Bank Account Number (IBAN)"),
	(&[0x5F, 0x54], "Bank Identifier Code (BIC)"),
	(&[0x5F, 0x55], "Issuer Country Code (alpha2 format)"),
	(&[0x5F, 0x56], "Issuer Country Code (alpha3 format)"),
	(&[0x5F, 0x57], "Account Type"),
	(&[0x61], "Application Template"),
	(&[0x6F], "File Control Information (FCI) Template"),
	(&[0x70], "READ RECORD Response Message Template"),
	(&[0x71], "Issuer Script Template 1"),
	(&[0x72], "Issuer Script Template 2"),
	(&[0x73], "Directory Discretionary Template"),
	(&[0x77], "Response Message Template Format 2"),
	(&[0x80], "Response Message Template Format 1"),
	(&[0x81], "Amount, Authorised (Binary)"),
	(&[0x82], "Application Interchange Profile"),
	(&[0x83], "Command Template"),
	(&[0x84], "Dedicated File (DF) Name"),
	(&[0x86], "Issuer Script Command"),
	(&[0x87], "Application Priority Indicator"),
	(&[0x88], "Short File Identifier (SFI)"),
	(&[0x89], "Authorisation Code"),
	(&[0x8A], "Authorisation Response Code"),
	(&[0x8C], "Card Risk Management Data Object List 1 (CDOL1)"),
	(&[0x8D], "Card Risk Management Data Object List 2 (CDOL2)"),
	(&[0x8E], "CVM List"),
	(&[0x8F], "Certification Authority Public Key Index (ICC)"),
	(&[0x90], "Issuer Public Key Certificate"),
	(&[0x91], "Issuer Authentication Data"),
	(&[0x92], "Issuer Public Key Remainder"),
	(&[0x93], "Signed Static Application Data"),
	(&[0x94], "Application File Locator (AFL)"),
	(&[0x95], "Terminal Verification Results (TVR)"),
	(&[0x97], "Transaction Certificate Data Object List (TDOL)"),
	(&[0x98], "Transaction Certificate (TC) Hash Value"),
	(&[0x99], "Transaction PIN Data"),
	(&[0x9A], "Transaction Date"),
	(&[0x9B], "Transaction Status Information (TSI)"),
	(&[0x9C], "Transaction Type"),
	(&[0x9D], "Directory Definition File (DDF) Name"),
	(&[0x9F, 0x01], "Acquirer Identifier"),
	(&[0x9F, 0x02], "Amount, Authorised (Numeric)"),
	(&[0x9F, 0x03], "Amount, Other (Numeric)"),
	(&[0x9F, 0x04], "Amount, Other (Binary)"),
	(&[0x9F, 0x05], "Application Discretionary Data"),
	(&[0x9F, 0x06], "Application Identifier (AID)"),
	(&[0x9F, 0x07], "Application Usage Control"),
	(&[0x9F, 0x08], "Application Version Number (ICC)"),
	(&[0x9F, 0x09], "Application Version Number (Terminal)"),
	(&[0x9F, 0x0B], "Cardholder Name Extended"),
	(&[0x9F, 0x0D], "Issuer Action Code - Default"),
	(&[0x9F, 0x0E], "Issuer Action Code - Denial"),
	(&[0x9F, 0x0F], "Issuer Action Code - Online"),
	(&[0x9F, 0x10], "Issuer Application Data (CCD-Compliant)"),
	(&[0x9F, 0x11], "Issuer Code Table Index"),
	(&[0x9F, 0x12], "Application Preferred Name"),
	(&[0x9F, 0x13], "Last Online Application Transaction Counter (ATC) Register"),
	(&[0x9F, 0x14], "Lower Consecutive Offline Limit"),
	(&[0x9F, 0x15], "Merchant Category Code"),
	(&[0x9F, 0x16], "Merchant Identifier"),
	(&[0x9F, 0x17], "PIN Try Counter"),
	(&[0x9F, 0x18], "Issuer Script Identifier"),
	(&[0x9F, 0x1A], "Terminal Country Code"),
	(&[0x9F, 0x1B], "Terminal Floor Limit"),
	(&[0x9F, 0x1C], "Terminal Identification"),
	(&[0x9F, 0x1D], "Terminal Risk Management Data"),
	(&[0x9F, 0x1E], "Interface Device (IFD/Terminal) Serial Number"),
	(&[0x9F, 0x1F], "Track 1 Discretionary Data"),
	(&[0x9F, 0x20], "Track 2 Discretionary Data"),
	(&[0x9F, 0x21], "Transaction Time"),
	(&[0x9F, 0x22], "Certification Authority Public Key Index (Terminal)"),
	(&[0x9F, 0x23], "Upper Consecutive Offline Limit"),
	(&[0x9F, 0x26], "Application Cryptogram"),
	(&[0x9F, 0x27], "Cryptogram Information Data (CID)"),
	(&[0x9F, 0x2D], "ICC PIN Encipherment Public Key Certificate"),
	(&[0x9F, 0x2E], "ICC PIN Encipherment Public Key Exponent"),
	(&[0x9F, 0x2F], "ICC PIN Encipherment Public Key Remainder"),
	(&[0x9F, 0x32], "Issuer Public Key Exponent"),
	(&[0x9F, 0x33], "Terminal Capabilities"),
	(&[0x9F, 0x34], "CVM Results"),
	(&[0x9F, 0x35], "Terminal Type"),
	(&[0x9F, 0x36], "Application Transaction Counter (ATC)"),
	(&[0x9F, 0x37], "Unpredictable Number"),
	(&[0x9F, 0x38], "Processing Options Data Object List (PDOL)"),
	(&[0x9F, 0x39], "POS Entry Mode"),
	(&[0x9F, 0x3A], "Amount, Reference Currency (Binary)"),
	(&[0x9F, 0x3B], "Application Reference Currency"),
	(&[0x9F, 0x3C], "Transaction Reference Currency Code"),
	(&[0x9F, 0x3D], "Transaction Reference Currency Exponent"),
	(&[0x9F, 0x40], "Additional Terminal Capabilities"),
	(&[0x9F, 0x41], "Transaction Sequence Counter"),
	(&[0x9F, 0x42], "Application Currency Code"),
	(&[0x9F, 0x43], "Application Reference Currency Exponent"),
	(&[0x9F, 0x44], "Application Currency Exponent"),
	(&[0x9F, 0x45], "Data Authentication Code"),
	(&[0x9F, 0x46], "ICC Public Key Certificate"),
	(&[0x9F, 0x47], "ICC Public Key Exponent"),
	(&[0x9F, 0x48], "ICC Public Key Remainder"),
	(&[0x9F, 0x49], "Dynamic Data Authentication Data Object List (DDOL)"),
	(&[0x9F, 0x4A], "Static Data Authentication Tag List"),
	(&[0x9F, 0x4B], "Signed Dynamic Application Data"),
	(&[0x9F, 0x4C], "ICC Dynamic Number"),
	(&[0x9F, 0x4D], "Log Entry"),
	(&[0x9F, 0x4E], "Merchant Name and Location"),
	(&[0x9F, 0x4F], "Log Format"),
	(&[0xA5], "File Control Information (FCI) Proprietary Template"),
	(&[0xBF, 0x0C], "File Control Information (FCI) Issuer Discretionary Data"),
];

pub const ARC: &[(&str, &str)] = &[
	("00", "Approval"),
	("01", "Call"),
	("02", "Call - Special Conditions"),
	("03", "Terminal ID Error"),
	("04", "Hold Card - Call"),
	("05", "Decline - Do Not Honour"),
	("06", "Error"),
	("07", "Hold Card - Call - Special Conditions"),
	("08", "Honour With Identification"),
	("09", "No Original Transaction"),
	("10", "Partial Approval"),
	("11", "Approved (VIP)"),
	("12", "Invalid Transaction"),
	("13", "Invalid Amount"),
	("14", "Invalid Card Number"),
	("15", "No Such Issuer"),
	("16", "Approved - Update Track 3"),
	("17", "Customer Cancellation"),
	("18", "Customer Dispute"),
	("19", "Retry Transaction"),
	("20", "Invalid Response"),
	("21", "No Action Taken"),
	("22", "Suspected Malfunction"),
	("23", "Invalid Minimum Amount"),
	("24", "File Update Not Supported"),
	("25", "Invalid ICC Data"),
	("26", "Duplicate File Update Record"),
	("27", "File Update Field Edit Error"),
	("28", "File Update File Locked Out"),
	("29", "File Update Not Successful"),
	("30", "Format Error"),
	("31", "Bank Not Supported By Switch"),
	("32", "Completed Partially"),
	("33", "Expired Card"),
	("54", "Expired Card"),
	("34", "Suspected Fraud"),
	("59", "Suspected Fraud"),
	("35", "Card Acceptor, Contact Acquirer"),
	("60", "Card Acceptor, Contact Acquirer"),
	("36", "Restricted Card"),
	("62", "Restricted Card"),
	("37", "Card Acceptor, Call Acquirer Security"),
	("66", "Card Acceptor, Call Acquirer Security"),
	("38", "Allowable PIN Retries Exceeded"),
	("75", "Allowable PIN Retries Exceeded"),
	("39", "No Credit Account"),
	("40", "Requested Function Not Supported"),
	("41", "Lost Card"),
	("42", "No Universal Account"),
	("43", "Stolen Card"),
	("44", "No Investment Account"),
	("51", "Insufficient Funds"),
	("52", "No Chequing Account"),
	("53", "No Savings Account"),
	("55", "Incorrect PIN"),
	("56", "No Card Record"),
	("57", "Transaction Not Allowed For Cardholder"),
	("58", "Transaction Not Allowed For Terminal"),
	("61", "Debit Cashback Withdrawal Limit Decline"),
	("63", "Security Violation"),
	("64", "Original Amount Incorrect"),
	("65", "Decline - Insert Card (often due to too many contactless transactions)"),
	("67", "ATM Hard Card Capture"),
	("68", "Response Received Too Late"),
	("91", "Issuer Timeout"),
	("92", "Issuer Routing Problem"),
	("93", "Transaction Not Completed - Law Violation"),
	("94", "Duplicate Transmission"),
	("95", "Reconciliation Error"),
	("96", "System Malfunction"),
];

pub const TXN_TYPE: &[(u8, &str)] = &[
	(0x00, "Purchase"),
	(0x01, "Cash Advance"),
	(0x02, "Void"),
	(0x09, "Purchase With Cashback"),
	(0x20, "Refund"),
	(0x31, "Balance Inquiry"),
	(0x38, "Mini Statement"),
	(0x40, "Fund Transfer"),
];

pub const TERMINAL_TYPE: &[(u8, &str)] = &[
	(0x11, "Attended, Online-Only, Controlled by a Financial Institution"),
	(0x12, "Attended, Offline With Online Capabilities, Controlled by a Financial Institution"),
	(0x13, "Attended, Offline-Only, Controlled by a Financial Institution"),
	(0x14, "Unattended, Online-Only, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)"),
	(0x15, "Unattended, Offline With Online Capabilities, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)"),
	(0x16, "Unattended, Offline-Only, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)"),
	(0x21, "Attended, Online-Only, Controlled by a Merchant"),
	(0x22, "Attended, Offline With Online Capabilities, Controlled by a Merchant"),
	(0x23, "Attended, Offline-Only, Controlled by a Merchant"),
	(0x24, "Unattended, Online-Only, Controlled by a Merchant"),
	(0x25, "Unattended, Offline With Online Capabilities, Controlled by a Merchant"),
	(0x26, "Unattended, Offline-Only, Controlled by a Merchant"),
	(0x34, "Unattended, Online-Only, Controlled by the Cardholder (self-attended, home PC, etc.)"),
	(0x35, "Unattended, Offline With Online Capabilities, Controlled by the Cardholder (self-attended, home PC, etc.)"),
	(0x36, "Unattended, Offline-Only, Controlled by the Cardholder (self-attended, home PC, etc.)"),
];

pub const POS_ENTRY: &[(u8, &str)] = &[
	(0x00, "Unknown"),
	(0x01, "Manual (keyed entry)"),
	(0x02, "Magnetic Stripe Reader (MSR)"),
	(0x03, "Barcode"),
	(0x04, "Optical Character Recognition (OCR)"),
	(0x05, "Integrated Circuit Chip (ICC) - Data Reliable (contact/insert transaction) (CVV can be checked)"),
	(0x06, "Magnetic Stripe Track 1"),
	(0x07, "Contactless Chip (contactless/tap transaction)"),
	(0x83, "Contactless Chip (contactless/tap transaction)"),
	(0x08, "Contactless Chip (contactless/tap transaction) - Contactless Mapping Service Applied"),
	(0x92, "Contactless Chip (contactless/tap transaction) - Contactless Mapping Service Applied"),
	(0x09, "E-Commerce - Including Remote Chip"),
	(0x10, "Merchant Has Cardholder Credentials On File (token, recurring payment, etc.)"),
	(0x80, "ICC Could Not Process - Fallback to MSR"),
	(0x81, "E-Commerce - Including Chip"),
	(0x82, "Via a Server (issuer, acquirer, third-party vendor)"),
	(0x90, "Magnetic Stripe Reader (MSR) - Full Track Data - Data Reliable (CVV can be checked)"),
	(0x91, "Contactless Magnetic Stripe Data (MSD)"),
	(0x95, "Integrated Circuit Chip (ICC) - Data Unreliable (contact/insert transaction) (CVV cannot be checked)"),
];

pub const TVR: &[Field] = &[
	f(0, 7, 1, N, Flag, "Offline data authentication was not performed"),
	f(0, 6, 1, E, Flag, "SDA (Static Data Authentication) failed"),
	f(0, 5, 1, E, Flag, "ICC data missing"),
	f(0, 4, 1, E, Flag, "Card appears on terminal exception file"),
	f(0, 3, 1, E, Flag, "DDA (Dynamic Data Authentication) failed"),
	f(0, 2, 1, E, Flag, "CDA (Combined Data Authentication) failed"),
	f(1, 7, 1, W, Flag, "ICC and terminal have different application versions"),
	f(1, 6, 1, E, Flag, "Expired application"),
	f(1, 5, 1, E, Flag, "Application not yet effective"),
	f(1, 4, 1, E, Flag, "Requested service not allowed for card product"),
	f(1, 3, 1, W, Flag, "New card"),
	f(2, 7, 1, W, Flag, "Cardholder verification was not successful"),
	f(2, 6, 1, W, Flag, "Unrecognised CVM (Cardholder Verification Method)"),
	f(2, 5, 1, E, Flag, "PIN try limit exceeded"),
	f(2, 4, 1, E, Flag, "PIN entry required and PIN pad not present or not working"),
	f(2, 3, 1, W, Flag, "PIN entry required, PIN pad present, but PIN was not entered (PIN bypass)"),
	f(2, 2, 1, N, Flag, "Online PIN entered"),
	f(3, 7, 1, N, Flag, "Transaction exceeds floor limit"),
	f(3, 6, 1, N, Flag, "Lower consecutive offline limit exceeded"),
	f(3, 5, 1, N, Flag, "Upper consecutive offline limit exceeded"),
	f(3, 4, 1, N, Flag, "Transaction selected randomly for online processing"),
	f(3, 3, 1, N, Flag, "Merchant forced transaction online"),
	f(4, 7, 1, N, Flag, "Default TDOL (Transaction Certificate Data Object List) used"),
	f(4, 6, 1, E, Flag, "Issuer authentication failed"),
	f(4, 5, 1, E, Flag, "Script processing failed before final GENERATE AC"),
	f(4, 4, 1, E, Flag, "Script processing failed after final GENERATE AC"),
];

pub const TSI: &[Field] = &[
	f(0, 7, 1, N, Flag, "Offline data authentication was performed"),
	f(0, 6, 1, N, Flag, "Cardholder verification was performed"),
	f(0, 5, 1, N, Flag, "Card risk management was performed"),
	f(0, 4, 1, N, Flag, "Issuer authentication was performed"),
	f(0, 3, 1, N, Flag, "Terminal risk management was performed"),
	f(0, 2, 1, N, Flag, "Script processing was performed"),
];

pub const TERM_CAPS: &[Field] = &[
	f(0, 7, 1, N, Flag, "Manual key entry"),
	f(0, 6, 1, N, Flag, "Magnetic stripe (MSR)"),
	f(0, 5, 1, N, Flag, "IC with contacts (ICC)"),
	f(1, 7, 1, N, Flag, "Plaintext PIN for ICC verification"),
	f(1, 6, 1, N, Flag, "Enciphered PIN for online verification"),
	f(1, 5, 1, N, Flag, "Signature (paper)"),
	f(1, 4, 1, N, Flag, "Enciphered PIN for offline verification"),
	f(1, 3, 1, N, Flag, "No CVM Required"),
	f(2, 7, 1, N, Flag, "SDA (Static Data Authentication)"),
	f(2, 6, 1, N, Flag, "DDA (Dynamic Data Authentication)"),
	f(2, 5, 1, N, Flag, "Card capture (ATM retaining the card)"),
	f(2, 3, 1, N, Flag, "CDA (Combined Data Authentication)"),
];

pub const ADD_CAPS: &[Field] = &[
	f(0, 7, 1, N, Flag, "Cash"),
	f(0, 6, 1, N, Flag, "Goods"),
	f(0, 5, 1, N, Flag, "Services"),
	f(0, 4, 1, N, Flag, "Cashback"),
	f(0, 3, 1, N, Flag, "Inquiry (request for information about one of the cardholder's accounts)"),
	f(0, 2, 1, N, Flag, "Transfer (between cardholder accounts at the same financial institution)"),
	f(0, 1, 1, N, Flag, "Payment (from a cardholder account to another party)"),
	f(0, 0, 1, N, Flag, "Administrative"),
	f(1, 7, 1, N, Flag, "Cash Deposit (into a bank account related to an application on the card used)"),
	f(2, 7, 1, N, Flag, "Numeric keys"),
	f(2, 6, 1, N, Flag, "Alphabetic and special characters keys"),
	f(2, 5, 1, N, Flag, "Command keys"),
	f(2, 4, 1, N, Flag, "Function keys"),
	f(3, 7, 1, N, Flag, "Print, attendant"),
	f(3, 6, 1, N, Flag, "Print, cardholder"),
	f(3, 5, 1, N, Flag, "Display, attendant"),
	f(3, 4, 1, N, Flag, "Display, cardholder"),
	f(3, 1, 1, N, Flag, "ISO/IEC 8859 Code Table 10"),
	f(3, 0, 1, N, Flag, "ISO/IEC 8859 Code Table 9"),
	f(4, 7, 1, N, Flag, "ISO/IEC 8859 Code Table 8"),
	f(4, 6, 1, N, Flag, "ISO/IEC 8859 Code Table 7"),
	f(4, 5, 1, N, Flag, "ISO/IEC 8859 Code Table 6"),
	f(4, 4, 1, N, Flag, "ISO/IEC 8859 Code Table 5"),
	f(4, 3, 1, N, Flag, "ISO/IEC 8859 Code Table 4"),
	f(4, 2, 1, N, Flag, "ISO/IEC 8859 Code Table 3"),
	f(4, 1, 1, N, Flag, "ISO/IEC 8859 Code Table 2"),
	f(4, 0, 1, N, Flag, "ISO/IEC 8859 Code Table 1"),
];

pub const CVR: &[Field] = &[
	f(0, 7, 2, N, GenAc2, "Application cryptogram type returned in 2nd GENERATE AC:"),
	f(0, 5, 2, N, GenAc1, "Application cryptogram type returned in 1st GENERATE AC:"),
	f(0, 3, 1, N, Flag, "CDA (Combined Data Authentication) performed"),
	f(0, 2, 1, N, Flag, "Offline DDA (Dynamic Data Authentication) performed"),
	f(0, 1, 1, W, Flag, "Issuer authentication not performed"),
	f(0, 0, 1, E, Flag, "Issuer authentication failed"),
	f(1, 7, 4, N, Number, "PIN try count:"),
	f(1, 3, 1, N, Flag, "Offline PIN verification performed"),
	f(1, 2, 1, E, Flag, "Offline PIN verification performed and PIN not successfully verified"),
	f(1, 1, 1, E, Flag, "PIN try limit exceeded"),
	f(1, 0, 1, W, Flag, "Last online transaction not completed"),
	f(2, 7, 1, N, Flag, "Lower offline transaction count limit exceeded"),
	f(2, 6, 1, N, Flag, "Upper offline transaction count limit exceeded"),
	f(2, 5, 1, N, Flag, "Lower cumulative offline amount limit exceeded"),
	f(2, 4, 1, N, Flag, "Upper cumulative offline amount limit exceeded"),
	f(2, 3, 1, N, Flag, "Issuer-discretionary bit 1"),
	f(2, 2, 1, N, Flag, "Issuer-discretionary bit 2"),
	f(2, 1, 1, N, Flag, "Issuer-discretionary bit 3"),
	f(2, 0, 1, N, Flag, "Issuer-discretionary bit 4"),
	f(3, 7, 4, N, Number, "Number of successfully processed issuer script commands containing secure messaging:"),
	f(3, 3, 1, E, Flag, "Issuer script processing failed"),
	f(3, 2, 1, W, Flag, "Offline data authentication failed on previous transaction"),
	f(3, 1, 1, N, Flag, "Go online on next transaction"),
	f(3, 0, 1, W, Flag, "Unable to go online"),
];

pub const CCI: &[Field] = &[
	f(0, 7, 4, N, FormatCode, "IAD Format Code:"),
	f(0, 3, 4, N, CryptogramVersion, "Cryptogram Version:"),
];

pub const CVM_RESULTS: &[Field] = &[
	f(0, 6, 1, N, Flag, "Apply succeeding CV Rule if this CVM is unsuccessful"),
	f(0, 5, 6, N, Method, "Method:"),
	f(1, 7, 8, N, Condition, "Condition:"),
	f(2, 7, 8, N, CvmResult, "Result:"),
];

pub const GEN_AC_1: [&str; 4] = [
	"AAC (Application Authentication Cryptogram)",
	"TC (Transaction Certificate)",
	"ARQC (Authorization Request Cryptogram)",
	"RFU (Reserved For Use)",
];
pub const GEN_AC_2: [&str; 4] = [
	"AAC (Application Authentication Cryptogram)",
	"TC (Transaction Certificate)",
	"Second GENERATE AC not requested",
	"RFU (Reserved For Use)",
];
pub const CVM_METHODS: &[(u8, &str)] = &[
	(0x00, "Fail CVM processing"),
	(0x01, "Plaintext PIN verification performed by ICC"),
	(0x02, "Enciphered PIN verified online"),
	(0x03, "Plaintext PIN verification performed by ICC and signature (paper)"),
	(0x04, "Enciphered PIN verification performed by ICC"),
	(0x05, "Enciphered PIN verification performed by ICC and signature (paper)"),
	(0x1E, "Signature (paper)"),
	(0x1F, "No CVM required"),
	(0x3F, "No CVM performed"),
];
pub const CVM_CONDITIONS: &[(u8, &str)] = &[
	(0x00, "Always"),
	(0x01, "If unattended cash"),
	(0x02, "If not unattended cash and not manual cash and not purchase with cashback"),
	(0x03, "If terminal supports the CVM"),
	(0x04, "If manual cash"),
	(0x05, "If purchase with cashback"),
	(0x06, "If transaction is in the application currency and is under X value"),
	(0x07, "If transaction is in the application currency and is over X value"),
	(0x08, "If transaction is in the application currency and is under Y value"),
	(0x09, "If transaction is in the application currency and is over Y value"),
];
pub const CVM_RESULT: [&str; 3] = ["Unknown", "Failed", "Successful"];

pub const IAC_DEFAULT: &str =
	"If not an online transaction and any of the following match the TVR, reject the transaction:";
pub const IAC_DENIAL: &str =
	"If any of the following match the TVR, deny the transaction without even going online:";
pub const IAC_ONLINE: &str =
	"If any of the following match the TVR, complete the transaction online:";
