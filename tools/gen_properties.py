#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(qtext.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

TLV = "src/emv/tlv_parsing/"
CLI = ["standard output of `pemv`", "standard error of `pemv`", "exit status"]

p("C01", "BER-TLV blocks decode to exactly the tags, lengths and values encoded",
  """For every well-formed BER-TLV block (one-byte and multi-byte tags, short-form and one-to-four-byte
  long-form lengths, empty values, any value bytes, any number of data objects), decoding it shows exactly
  the encoded data objects, each with its complete tag, its byte count and its value. Nothing is dropped,
  invented, merged, split or altered, whichever of the equivalent length encodings was used and wherever in
  the block the object stands.""",
  ["inputs"], "every sequence of data objects, every tag shape, every length encoding, every value",
  """The unit tests decode about a dozen fixed blocks, with short-form lengths nearly everywhere; tag
  continuation, long-form lengths, empty values and their combinations at the end of a block are a product
  space the tests hit at a few points.""",
  [TLV + "ber_tlv.rs", TLV + "mod.rs", "src/util.rs"],
  [("parse", TLV + "ber_tlv.rs"), ("byte_slice_to_u32", "src/util.rs")], CLI,
  [("index", "cursor into the block: tag start/end, length bytes, data", TLV + "ber_tlv.rs parse()")])

p("C02", "Malformed input is rejected as a whole: one diagnostic, nothing decoded",
  """When a block is not well-formed TLV (cut off inside a tag, a length or a value, a length that overruns
  the block, more than four length bytes), or when any recognised data object in it, at any position or
  nesting level, carries a value that is invalid for it, pemv prints exactly one diagnostic line on standard
  error and nothing on standard output. No part of such a block is ever decoded, and a well-formed block
  with valid values never produces a diagnostic.""",
  ["inputs"], "every truncation and corruption of every block, every operation, every position of the fault",
  """The tests reject three or four hand-picked bad blocks and look only at the parser's return value, never
  at what reaches the terminal; a cut at each offset of each block shape is not sampled at all.""",
  [TLV + "ber_tlv.rs", TLV + "mod.rs", TLV + "process_emv_tag.rs", "src/main.rs", "src/error.rs"],
  [("bounds tests in parse", TLV + "ber_tlv.rs"), ("TryFrom<RawEmvBlock>", TLV + "mod.rs"),
   ("parse_error printing", "src/main.rs")], CLI)

p("C03", "Constructed tags show their contents as nested tags, and nothing else does",
  """A constructed data object whose contents are themselves a well-formed TLV block is followed by those
  contents decoded as child tags, one level deeper and only there, recursively (to at least 100 levels);
  primitive objects, empty objects, masked objects, and constructed objects whose contents are not
  well-formed have no children. Contents that cannot be decoded never affect the enclosing object's own tag,
  length and raw value, its siblings, or the success of the block.""",
  ["inputs"], "every tree of data objects, every class of tag, well-formed and broken contents at every level",
  """Three tests cover a single level of nesting. Depth, broken contents beside intact siblings, and the
  attribution of each child to the right parent are combinations no test forms.""",
  [TLV + "ber_tlv.rs", TLV + "ingenico_tlv.rs", TLV + "mod.rs"],
  [("get_child_block", TLV + "ber_tlv.rs"), ("ProcessedEmvNode::display_breakdown", TLV + "mod.rs")], CLI)

p("C04", "Ingenico TLV blocks decode exactly, and malformed ones are rejected",
  """For every well-formed Ingenico block (`<type><tag hex>:<length hex>:<a|h><data>` fields, any single
  character between them, tag and length padded with any number of leading zero bytes, lengths that fit in
  32 bits, ASCII or hex data in either case), decoding shows exactly its EMV ('T') fields in order, with
  leading zero bytes stripped from the tag and with the stated number of value bytes; fields of other types
  are skipped without shifting anything. Any text with a missing part, a tag or length that is empty or is
  not whole hex bytes, data shorter than its length, bad hex data, an unknown data format or a non-ASCII
  character is rejected entirely.""",
  ["inputs"], "every field sequence over types, tag and length spellings, formats, data and separators; every truncation",
  """The tests decode about fifteen literal strings; cursor handling over mixed skipped and shown fields,
  padding, zero lengths and truncation at every character is not covered.""",
  [TLV + "ingenico_tlv.rs", "src/util.rs"],
  [("parse", TLV + "ingenico_tlv.rs"), ("parse_hex_str_strict, trim_leading_0_bytes", "src/util.rs")], CLI,
  [("index", "cursor into the text", TLV + "ingenico_tlv.rs parse()")])

p("C05", "Automatic format detection agrees with the explicit parsers",
  """Automatic detection reports Ingenico exactly when the text is a valid Ingenico block and BER-TLV when it
  is not but its hex digits are a valid, non-empty BER-TLV block, and then shows exactly what the explicit
  parser for that format shows, under the same settings; anything else is reported as unrecognised with
  nothing decoded. The same (unmasked) data objects written in either format decode to the same breakdown.""",
  ["inputs", "configurations"], "every text, every block of data objects encoded both ways, every masking and sorting setting",
  """Five tests call the detector, each on one literal, and none compares a detected result with the explicit
  parser's or checks what is printed.""",
  [TLV + "auto_tlv.rs", TLV + "ber_tlv.rs", TLV + "ingenico_tlv.rs", "src/main.rs"],
  [("parse", TLV + "auto_tlv.rs"), ("auto-tlv branch", "src/main.rs")], CLI)

p("C06", "Masked values are recognised exactly, and never decoded",
  """A value is treated as masked exactly when it is at least two characters long and consists wholly of one
  and the same configured masking character (bytes for BER-TLV, text for Ingenico); it is then shown with an
  unknown length and a masked marker, with its tag's name, and is never dumped, parsed or descended into.
  Every other value, including mixtures of different masking characters and values only partly masked, is
  shown and decoded as data.""",
  ["inputs", "configurations"], "every value up to a bound over masking and other characters, every set of masking characters, every tag kind, both formats",
  """The tests mask with a single '*' in a handful of blocks; sets of characters, mixtures, the two-character
  minimum and the interplay with parsed and constructed tags are not sampled.""",
  [TLV + "mod.rs", TLV + "ber_tlv.rs", TLV + "ingenico_tlv.rs", TLV + "process_emv_tag.rs"],
  [("is_masked_u8, is_masked_str", TLV + "mod.rs"), ("get_child_block", TLV + "ber_tlv.rs")], CLI)

p("C07", "Sorting is a stable permutation by tag at every level; off keeps the order",
  """With sorting on (the default), the tags at every nesting level appear in ascending order of their tag
  bytes, tags that are equal keep their order in the input, and every tag keeps its own value, parsed
  breakdown and children; nothing moves between levels. With sorting off, every level keeps the order of the
  input exactly.""",
  ["inputs", "configurations"], "every sequence of tags (with repeats, prefixes and nested blocks) up to a bound, with sorting on and off",
  """No unit test looks at ordering at all; a sample of blocks cannot show stability, prefix order and
  recursion for every permutation.""",
  [TLV + "mod.rs", "src/main.rs"],
  [("sort_nodes", TLV + "mod.rs"), ("Ord for RawEmvTag / ProcessedEmvNode", TLV + "mod.rs")], CLI)

p("C08", "A bit's meaning is listed exactly when that bit is set, and never otherwise",
  """In the breakdown of TVR, TSI, Issuer Action Codes, Terminal Capabilities, Additional Terminal
  Capabilities and CVR values, the meaning the EMV books assign to a bit (or multi-bit field, with its
  value) is listed exactly when that bit is set (fields: always), each at most once, from the last bit to the
  first, and bits reserved for future use are never given a meaning. The binary line above shows every
  defined bit exactly as given and reserved bits as zero.""",
  ["inputs"], "every combination of bit values",
  """The tests check that the bit positions of each table are distinct and that display positions agree with
  the parsed bits; which text goes with which bit, and that bits do not influence each other, is not
  tested.""",
  ["src/macros.rs", "src/emv/bitflag_values.rs", "src/emv/tvr.rs", "src/emv/tsi.rs", "src/emv/terminal_capabilities.rs",
   "src/emv/additional_terminal_capabilities.rs", "src/emv/ccd/cvr.rs", "src/emv/iac/"],
  [("bitflag_value!", "src/macros.rs"), ("display_breakdown", "src/emv/bitflag_values.rs")], CLI)

p("C09", "Breakdown drawings point at the right bits",
  """In every bit breakdown, at any indentation, the branch of each line stands exactly under the first
  digit of the bit (or field) it explains, the vertical arms on each line are exactly those of the entries
  still to be listed, and, when the value has multi-bit fields, the header row spans each field's digits
  exactly and marks each set single bit. Lines are otherwise made only of spaces, so removing the drawing
  leaves just the explanations.""",
  ["inputs"], "every combination of set bits of every bit-field value, at every nesting depth explored",
  """Drawing code is excluded from the tests' coverage altogether (it only prints); columns depend on the
  whole set of bits, byte gaps and field widths together.""",
  ["src/emv/bitflag_values.rs", "src/macros.rs", "src/emv/cvm_results.rs"],
  [("display_breakdown", "src/emv/bitflag_values.rs"), ("@display_field_bits, @bit_len", "src/macros.rs")], CLI,
  [("arm_bits", "bits whose vertical arm is drawn", "src/emv/bitflag_values.rs")])

p("C10", "Enumerated codes get their documented meaning, unknown codes get none",
  """Every value of Authorisation Response Code, Transaction Type, Terminal Type and POS Entry Mode that has
  a documented meaning is shown with exactly that meaning, and no other value is ever given one: an unknown
  Authorisation Response Code or Transaction Type is named as unrecognised and shown raw, an unknown Terminal
  Type or POS Entry Mode is diagnosed (as is an Authorisation Response Code whose two bytes are not text).
  Alternate codes for the same meaning agree.""",
  ["inputs"], "every one- and two-byte value of each coded tag",
  """Each enumeration is tested on one value; the mapping of the other 65,000 is untested, and the lookup
  tables are exactly where a typo does not fail to compile.""",
  ["src/emv/authorisation_response_code.rs", "src/emv/transaction_type.rs", "src/emv/terminal_type.rs",
   "src/emv/pos_entry_mode.rs", TLV + "process_emv_tag.rs"],
  [("enum_repr_fallible!, enum_no_repr_fallible!", "src/macros.rs"), ("parse_raw_unrecognised", TLV + "mod.rs")], CLI)

p("C11", "CVM Lists and CVM Results are decoded rule by rule, exactly",
  """A CVM List is shown as its rules in order, each with the meaning of its method code, of its condition
  code and of its continue-if-unsuccessful bit, preceded by the amounts X and Y (equal-width decimal, at least
  three digits) exactly when one of them is non-zero or some rule's condition refers to them. CVM Results
  show the method, condition and result meanings for every byte combination, show the bits as they were given
  (reserved bit as zero), name unknown methods and conditions as unknown rather than as another one, and
  reject an unassigned result.""",
  ["inputs"], "every rule byte pair, every CVM Results value, every X/Y magnitude, every list length up to the bound",
  """The tests parse four or five lists and results structurally and never look at what is printed; 65,536 rule pairs
  and the display condition of X/Y are not enumerated.""",
  ["src/emv/cvm_list.rs", "src/emv/cvm_results.rs", "src/emv/cv_rule/"],
  [("TryFrom<&[u8]>", "src/emv/cvm_list.rs"), ("CardholderVerificationRule", "src/emv/cv_rule/mod.rs")], CLI)

p("C12", "CCD Issuer Application Data is recognised exactly and split at the right bytes",
  """Issuer Application Data is treated as CCD-compliant exactly when it is 32 bytes long with both length
  bytes 0x0F, format code A and a known cryptogram version; it is then shown as its Common Core Identifier,
  derivation key index, card verification results, eight counter bytes and fifteen issuer-discretionary
  bytes, each taken from its own position. Any other value is shown raw and named as not CCD-compliant inside
  a TLV block, and diagnosed when decoded on its own.""",
  ["inputs"], "every value of each significant byte, every length, every field position",
  """The tests decode three IADs and compare structures; byte offsets of the printed fields and the
  compliance decision for each byte value are not covered.""",
  ["src/emv/ccd/iad.rs", "src/emv/ccd/cci.rs", "src/emv/ccd/cvr.rs", TLV + "process_emv_tag.rs"],
  [("IssuerApplicationData::try_from, parse_format_data", "src/emv/ccd/iad.rs")], CLI)

p("C13", "Every service code 000-999 is decoded digit by digit as ISO/IEC 7813 says",
  """For each number from 0 to 999, however it is supplied (decimal text with surrounding blanks or leading
  zeros, or packed BCD in tag 5F30), the breakdown shows the three-digit number and the meanings of exactly
  its three digits: interchange and technology from the first, authorisation processing from the second,
  allowed services and PIN requirements from the third. Anything that is not such a number is diagnosed.""",
  ["inputs"], "all 1,000 codes in both encodings, all 65,536 packed values, malformed text up to a bound",
  """Two personal cards' codes and a few errors are tested; 998 codes are not.""",
  ["src/non_emv/service_code.rs", "src/util.rs"],
  [("ServiceCode::try_from", "src/non_emv/service_code.rs"), ("parse_str_to_u16, bytes_to_str", "src/util.rs")], CLI)

p("C14", "Wrong sizes are diagnosed with the expected and the found byte count",
  """Every fixed-size value (TVR, IACs, TSI, CVR, CVM Results, Terminal and Additional Terminal Capabilities,
  Terminal Type, POS Entry Mode, Transaction Type, Authorisation Response Code, packed service code) is accepted only
  at exactly its size, a CVM List only at eight bytes plus whole two-byte rules, and a tag to identify only
  when non-empty. For any other size the diagnostic states the kind of bound, the expected count and the
  number of bytes actually supplied (for a CVM List with half a rule: that its rules aren't whole).""",
  ["inputs"], "every size from zero to well beyond the expected one, for every value kind and both routes (own option, inside a TLV block)",
  """A shared test macro checks one smaller and one larger size per type and not the message, nor the TLV
  route.""",
  ["src/macros.rs", "src/error.rs", "src/emv/", "src/non_emv/service_code.rs"],
  [("ByteCountIncorrect", "src/error.rs"), ("TryFrom<&[u8]>", "src/macros.rs")], CLI)

p("C15", "Tags are named, classed and typed correctly and consistently everywhere",
  """For every tag, identification shows the EMV name exactly for the tags in the EMV data dictionary the
  tool knows and `<Unknown>` for all others, echoes the tag bytes, and derives the class from the first
  byte's top two bits and primitive/constructed from its third bit. Inside decoded blocks the same tag
  carries the same name (save the stated unrecognised and non-CCD variants).""",
  ["inputs"], "every one-byte tag, every two-byte tag, longer tags up to a bound",
  """Name lookup is excluded from coverage and has no test; 65,792 short tags are cheap to enumerate and
  impossible to review by eye after each edit.""",
  [TLV + "process_emv_tag.rs", "src/emv/tag_basic_info.rs", TLV + "ber_tlv.rs", TLV + "mod.rs"],
  [("identify_tag", TLV + "process_emv_tag.rs"), ("parse_tag_metadata", TLV + "ber_tlv.rs")], CLI)

p("C16", "Hex input may be written in any style without changing the result",
  """Wherever hex bytes are accepted outside the Ingenico format, letter case, spaces, punctuation, other
  non-hex characters and non-ASCII text between digits (even inside a byte) never change what is decoded, so
  the result depends only on the sequence of hex digits; a trailing single digit that does not complete a
  byte is ignored. Each digit contributes its own four bits, high half first.""",
  ["inputs"], "every byte value in every case combination, every placement of separator characters over a bounded alphabet, every operation that takes hex",
  """The tests convert seven strings; equivalence over all operations, separators and positions is a
  universal statement.""",
  ["src/util.rs", "src/main.rs"], [("parse_hex_str", "src/util.rs")], CLI)

p("C17", "Settings obey command line over environment over file over default",
  """For each of colour, masking characters and tag sorting, independently, the effective value is the one
  given on the command line if any, else in the environment, else in the configuration file (its global
  section over the selected profile over the default one), else the built-in default. The configuration file is the one named
  by PEMV_CONFIG, else pemv.toml in the working directory or its nearest ancestor that has one, and the
  profile the one named by PEMV_PROFILE.""",
  ["configurations"], "every combination of sources that set or omit each setting, with every small value",
  """No test touches configuration layering (the module says 'TODO: Test this'); the cross product of four
  layers, three settings, profiles and file locations is a configuration space.""",
  ["src/config/mod.rs", "src/config/colour_choice.rs", "src/main.rs", "src/cli.rs"],
  [("Config::figment, apply_cli_arguments", "src/config/mod.rs")], CLI)

p("C18", "Colour never changes the text, and follows the severity of each entry",
  """Removing the colour codes from any output leaves exactly the uncoloured output, whatever the colour
  setting; with colour off, or automatic and not on a terminal, there are no escape codes at all, while
  automatic on a colour-capable terminal is the same as always on. With colour
  on, every style that is switched on is switched off again right behind its text: headings, labels, tag numbers and
  bit strings are highlighted, each the same way wherever it appears, and all other text is plain; each bit explanation is yellow or red exactly when that
  bit is a warning or an error and plain otherwise (always plain in Issuer Action Codes).""",
  ["inputs", "configurations"], "every colour setting, terminal or not, every operation, every single bit of every bit-field value",
  """Nothing that writes colours is covered by a test (the display code is excluded from coverage).""",
  ["src/emv/bitflag_values.rs", "src/output_colours.rs", "src/config/colour_choice.rs", "src/main.rs", TLV + "mod.rs"],
  [("change_based_on_tty", "src/config/colour_choice.rs"), ("set_color/reset pairs", "src/emv/bitflag_values.rs")], CLI)

p("C19", "No input makes pemv crash, hang or run away",
  """Whatever the argument text, for every operation, pemv terminates normally: it never panics, aborts,
  overflows an integer or its stack, and its running time and output stay in proportion to the input. This includes lengths near the
  32-bit limit, arbitrarily deep nesting, arbitrarily many data objects and arbitrary Unicode text.""",
  ["inputs"], "every short string over a bounded alphabet for every operation, every depth and length boundary",
  """The tests feed well-formed or mildly malformed literals; overflow, slicing and recursion limits show only
  at boundaries and depths no test reaches.""",
  ["src/main.rs", TLV + "ber_tlv.rs", TLV + "ingenico_tlv.rs", "src/util.rs", "src/emv/bitflag_values.rs"],
  [("bounds tests", TLV + "ber_tlv.rs"), ("byte_slice_to_u32", "src/util.rs")], CLI)

p("C20", "The raw dump of a value reproduces every byte of it",
  """For every value of every length, the raw dump shows all of its bytes in order as upper-case hex,
  sixteen to a line, followed by a text column that starts at the same position on every line and shows each printable ASCII
  character as itself and any other byte as a dot; the value can be recovered exactly from the dump. An
  empty value has no dump, and the announced byte count (singular for one) equals the number of bytes
  dumped.""",
  ["inputs"], "every byte value at every column, every length around the line boundaries, at several depths",
  """Dump printing is excluded from coverage and has no tests.""",
  ["src/util.rs", TLV + "mod.rs"], [("print_bytes_pretty", "src/util.rs"), ("RawEmvTag::display_breakdown", TLV + "mod.rs")], CLI)

p("C21", "Output is never silently lost when writing it fails",
  """If standard output accepts only part of a write, or interrupts one, the complete output is still
  produced; if it refuses a write, what was delivered is an exact prefix of the complete output and pemv ends
  with a failure status. In no case does pemv exit successfully with missing, repeated or reordered text.""",
  ["fault_sequences"], "every write of a run failing or shortened, one deviation at every write and pairs of deviations, over every operation",
  """Tests never run the program, let alone with a failing output; each write of each run is a fault point.""",
  ["src/main.rs", "src/util.rs", "src/emv/bitflag_values.rs", TLV + "mod.rs"],
  [("print!/println! throughout", "src/")], CLI + ["write(2) calls"])

p("C22", "Option spellings are equivalent and operations are mutually exclusive",
  """Every documented spelling of an operation or option (short, long and aliases, separate or `=` value)
  behaves identically, exactly one operation may be given, an empty value is refused, masking and sorting
  options are accepted only together with a TLV operation, and no other word (an abbreviation, say, or other
  case) is taken for an option. Refused command lines print a usage error, exit
  with a failure status and decode nothing.""",
  ["configurations", "inputs"], "every spelling of every option, every pair of operations and of operation and option",
  """The one CLI test only runs clap's self-check; which spelling reaches which decoder, and the rejection of
  pairs, is not tested.""",
  ["src/cli.rs", "src/main.rs"], [("build_cli", "src/cli.rs"), ("operation dispatch", "src/main.rs")], CLI)

p("C23", "A tag's breakdown does not depend on what surrounds it",
  """The breakdown of a data object inside a block is the same as when it is decoded alone: the output of a
  block is the breakdowns of its objects separated by one blank line, and the children of a constructed
  object are shown exactly as the same block on its own, indented by one more tab. Its position, neighbours
  and depth, and what was decoded before it, have no influence.""",
  ["inputs", "histories"], "every sequence of data objects of each kind up to a bound, at every position and several depths",
  """Tests decode tags one at a time; interference between neighbours or with depth needs pairs and nesting.""",
  [TLV + "mod.rs", "src/emv/bitflag_values.rs", "src/util.rs"],
  [("display_breakdown with indentation", "src/")], CLI)

p("C24", "The same value decodes identically by every route",
  """A value given to its own option produces, line for line, the breakdown that the tag carrying it shows
  inside a TLV block (apart from indentation): TVR, TSI, CVM Results, CVM List, Issuer Application Data and
  service code; likewise card verification results alone and within Issuer Application Data, and Issuer
  Action Codes as a TVR under their own heading. A value refused by one route is refused by the other for
  the same reason (non-CCD Issuer Application Data is shown raw in a block).""",
  ["inputs"], "every value explored for each kind, by each pair of routes",
  """The tests never run the command-line routes; agreement of two routes over a value space needs
  enumeration.""",
  ["src/main.rs", TLV + "process_emv_tag.rs", "src/emv/ccd/iad.rs", "src/emv/iac/"],
  [("operation dispatch", "src/main.rs"), ("process_emv_tag", TLV + "process_emv_tag.rs")], CLI)

p("C25", "A broken configuration is reported, never half-applied or ignored",
  """If a setting in the selected configuration (file or environment) has an invalid value and no
  higher-priority source overrides it, or the configuration file is not valid TOML (or has a setting outside any profile), pemv decodes nothing, explains the problem on
  standard error and exits with an ordinary failure status, without a crash. A configuration file cut off at
  any point either is reported like that or has exactly the effect of the complete settings it still
  contains.""",
  ["configurations", "crash_points"], "every setting and source with values of every wrong type, every truncation point of a configuration file",
  """Nothing tests configuration errors; a torn configuration file has as many states as bytes.""",
  ["src/main.rs", "src/config/mod.rs", "src/config/colour_choice.rs"],
  [("settings extraction", "src/main.rs")], CLI)

p("C26", "A run depends only on its arguments and settings, and touches nothing",
  """Running pemv again with the same arguments, PEMV_ settings and configuration file - at another time, from
  another directory, with other unrelated environment variables, another standard input, umask, locale or
  inherited descriptors, after any other runs - gives byte-for-byte the same output, diagnostics and exit
  status (only help text follows the width of the terminal, and automatic colour the kind of standard
  output). pemv only reads: it creates, changes or removes no file, starts no program, opens no connection,
  and of the user's files it opens only its configuration file.""",
  ["configurations", "histories"], "every representative run x every clock, random source, variable, directory, inheritance and pair of earlier runs of stated sets",
  """Unit tests run in one process in one environment; nothing compares two runs, or looks at what a run
  touches.""",
  ["src/main.rs", "src/config/mod.rs", "src/emv/tlv/mod.rs", "src/util.rs", "src/cli.rs"],
  [("main", "src/main.rs"), ("Config::figment", "src/config/mod.rs")], CLI + ["environment", "system calls"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
