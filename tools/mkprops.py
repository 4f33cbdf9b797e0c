#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the text lives here so that it can be edited comfortably)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))

p("C01", "Block error detection and correction follow the RDS code exactly",
  "Once synchronised, a received 26-bit block is used as data if and only if its checkword matches the offset word expected at its position (C or C' both being acceptable for the third block), or error correction is enabled and a single burst spanning at most two bits relative to the expected offset word explains the mismatch (a C' block is never burst-corrected). "
  "In the first case the 16 information bits are reported unchanged, in the second case with exactly that burst undone; every other word leaves the block unreceived and its bits never appear in the output. With --no-fec only exact matches are used.",
  ["inputs", "configurations"], "all 2^26 received words at each of the four block positions, with FEC on and off",
  "Unit tests flip a couple of hand-picked bits in one group; correctness of a linear code and of its correction table is a statement about all 2^26 words at every position.",
  ["src/block_sync.cc", "src/block_sync.hh"],
  [("syndrome calculation and offset lookup", "src/block_sync.cc calculateSyndrome/getOffsetForSyndrome"),
   ("burst correction table", "src/block_sync.cc makeErrorLookupTable/correctBurstErrors"),
   ("acceptance decision", "src/block_sync.cc BlockStream::findBlockInInputRegister")],
  ["groups and raw_data produced from a bit stream"])
p("C02", "Block synchronisation: acquisition, framing, loss and recovery",
  "From an arbitrary bit stream the decoder acquires block synchronisation exactly when three intact blocks (among the last four detected while searching) appear in the correct cyclic rhythm with neighbours at most six block lengths apart, and not from isolated data that mimics a block. "
  "While synchronised it frames every 26 bits, emits exactly one group per four block positions in order (blocks before the first block 1 of a partially received group counting as lost), and keeps synchronisation until more than 42 of the last 50 blocks had errors; then it drops synchronisation and searches at every bit again, so that any slip or outage is recovered from. "
  "What is still held of a partially received last group is processed at the end of input.",
  ["inputs", "fault_sequences", "histories"], "all bit streams composed of intact, damaged and mimicking blocks, slips of any number of bits, outages of any length and any starting phase",
  "The tests feed two captured bit strings; synchronisation is a state machine over unbounded bit histories with 26 phases, 4 pulse memories and a 50-block error window.",
  ["src/block_sync.cc", "src/channel.cc", "src/redsea.cc"],
  [("sync pulse rhythm search", "src/block_sync.cc SyncPulseBuffer/SyncPulse::couldFollow"),
   ("block framing and error window", "src/block_sync.cc BlockStream::pushBit/findBlockInInputRegister"),
   ("flush at end of input", "src/channel.cc Channel::flush")],
  ["hex output / raw_data lines produced from bits"],
  [("sync pulse buffer", "last four detected offset words with their bit positions", "src/block_sync.hh"), ("block_error_sum50", "errors among last 50 blocks", "src/block_sync.hh")])
p("C03", "PI confirmation, station change and isolation between stations",
  "Nothing is printed as JSON until the same PI code has been received three times in a row; afterwards every printed non-RDS2 group carries the confirmed PI, which only changes when three consecutive received PI codes agree on a new value, so fewer repeats (bit errors) never change it. "
  "When it changes, everything learned about the previous station (texts, frequencies, ODA assignments, TMC state, partial data) is forgotten, so no later line contains data from the earlier station; two successive PIs that both differ from the confirmed one and from each other restart the search for confirmation without erasing the station, which is cleared once three equal PIs in a row (even the old value) confirm it again. "
  "A group whose PI was lost is still decoded if the previous group had its PI, otherwise it is dropped until a PI is received again; groups of the main stream with no received block are never printed.",
  ["histories", "inputs"], "all sequences of groups with arbitrary PI values or lost PIs, interleaved with data groups of several stations",
  "Tests show one accepted triple and one ignored phantom; the confirmation rule is a state machine over all PI histories.",
  ["src/channel.cc", "src/channel.hh", "src/groups.cc"],
  [("PI cache", "src/channel.hh CachedPI::update"), ("station reset", "src/channel.cc Channel::processGroup"), ("lost-PI rule", "src/groups.cc Station::updateAndPrint")],
  ["pi field and presence of JSON lines"])
p("C04", "PS, PTY name, long PS and other short names appear only when complete",
  "The programme service name, PTY name, long PS, other networks' PS names and the TMC service provider name are reported only after all their segments were received in order from the first one without a gap (for long PS up to a carriage return), and then exactly as transmitted, every byte mapped through the RDS character set (UTF-8 for long PS), unprintable bytes blank. "
  "A name is never reported with characters missing or with characters of a segment that was not received; once complete, a further segment other than the first replaces its own characters only and the updated name is reported, whereas the first segment begins a new round that is reported when it is complete again; a changed A/B flag restarts the PTY name. "
  "With --show-partial the incomplete PS and long PS are shown under partial_ names instead, unreceived positions blank.",
  ["histories", "inputs", "fault_sequences"], "all sequences of text segments incl. losses, repeats, out-of-order segments, content changes and A/B changes; all 256 character codes at all positions",
  "Tests decode one happy-path message per text kind; ordering, gaps and updates form a large history space.",
  ["src/text/rdsstring.cc", "src/text/radiotext.hh", "src/groups.cc", "src/tmc/tmc.cc"],
  [("sequential-reception tracking", "src/text/rdsstring.cc RDSString::set/isComplete"), ("callers", "src/groups.cc decodeType0/10A/14/15A, src/tmc/tmc.cc receiveUserGroup")],
  ["ps, partial_ps, pty_name, long_ps, partial_long_ps, other_network.ps, tmc.service_provider"])
p("C05", "RadioText is reported complete, exact and current",
  "A RadioText (2A up to 64, 2B up to 32 characters) is reported only when its segments were received in order from the start through the carriage return, or through the full length, or, for messages with neither, when the same text was seen twice at a restart from the first segment; the text is then exactly what was transmitted with trailing blanks removed and each byte mapped through the RDS character set. "
  "A changed A/B flag discards everything received before, so text from two messages is never mixed across a flag change; a group with a lost block 3 or 4 changes nothing. "
  "With --show-partial the A/B flag and the in-order received part of an incomplete text are shown as rt_ab and partial_radiotext instead.",
  ["histories", "inputs", "fault_sequences"], "all sequences of 2A/2B segments of several messages with losses, repeats, restarts and A/B flips, 2A/2B changing together with the A/B flag",
  "Tests cover one message per length method; the heuristics depend on the full segment history.",
  ["src/groups.cc", "src/text/rdsstring.cc", "src/text/radiotext.hh"],
  [("RadioText decoding", "src/groups.cc Station::decodeType2"), ("completion tracking", "src/text/rdsstring.cc")],
  ["radiotext, partial_radiotext, rt_ab"])
p("C06", "RT+ tags and enhanced RadioText refer to the text actually received",
  "Each RadioText Plus tag is reported with the content type transmitted and exactly the addressed characters (counted as characters, including non-ASCII ones and the last one) of the last complete RadioText, or eRT for eRT+, and is omitted when no complete text covers it or the content type is the dummy class; a changed item toggle or running bit discards the text so that tags never describe the previous item. "
  "Enhanced RadioText, in UTF-8 or UCS-2 (high byte first) as announced, is reported only when received in order from its first byte through a carriage return or all 128 bytes, exactly as transmitted with trailing blanks removed. "
  "Tags and eRT are decoded only in the group type the station assigned to that application, and item_running/item_toggle always mirror the transmitted bits.",
  ["histories", "inputs"], "all tag positions, lengths and content types over texts with ASCII and multi-byte characters; all histories of assignment, text and tag groups incl. lost blocks",
  "Tests have two RT+ captures and one eRT capture; substring arithmetic must hold for all 64x64 start/length pairs and texts.",
  ["src/groups.cc", "src/text/rdsstring.cc", "src/text/rdsstring.hh", "src/tables.cc"],
  [("tag extraction", "src/groups.cc parseRadioTextPlus"), ("UTF-8 substring", "src/text/rdsstring.cc getLastCompleteString(start,len)"), ("eRT", "src/groups.cc parseEnhancedRT")],
  ["radiotext_plus, ert_plus, enhanced_radiotext"])
p("C07", "Alternative frequency lists are reported whole and exact",
  "A list of alternative frequencies is reported exactly when as many valid frequency codes as announced by its length code were received in sequence, with each code converted to the right FM or LF/MF kilohertz value in transmission order; filler codes are ignored, and an invalid code, surplus frequency or new length code abandons the old list, so a list never mixes entries of two lists. "
  "Lists whose every pair contains the first (tuned) frequency are reported as method B with same-programme and regional frequencies told apart by pair order and only if no frequency repeats; all others as method A. "
  "With --show-partial an incomplete list is shown as partial_alt_frequencies.",
  ["histories", "inputs", "fault_sequences"], "all sequences of AF code pairs incl. all 256 codes, list lengths 1..25, losses and repeats",
  "Tests decode one method A and one method B list; the list is a state machine over code sequences.",
  ["src/util.cc", "src/util.hh", "src/groups.cc"],
  [("AF list", "src/util.cc AltFreqList"), ("carrier frequency", "src/util.cc CarrierFrequency"), ("method B split", "src/groups.cc decodeType0")],
  ["alt_frequencies_a, alt_frequencies_b, partial_alt_frequencies"])
p("C08", "Clock-time is the transmitted instant, independent of the host",
  "For every date from 1 March 1900 to 28 February 2100, every valid hour and minute and every local time offset up to +-15.5 hours whose whole hours do not exceed 14, a received clock-time group is reported as the local civil date and time (proleptic Gregorian, correct across day, month, year and leap-day boundaries) with the UTC offset in ISO 8601 form, Z when the offset is zero. "
  "The result depends on nothing but the received group: not on the host's time zone, locale or earlier groups. Groups with an impossible date, hour, minute or offset, or with a lost block, produce no clock_time.",
  ["inputs", "configurations"], "all 2^17 dates, all hours/minutes and offsets incl. invalid ones, under different host time zones",
  "Tests check seven instants in the test machine's own time zone.",
  ["src/groups.cc"], [("date conversion", "src/groups.cc Station::decodeType4A")], ["clock_time"])
p("C09", "Basic tuning and labelling information mirrors the received bits",
  "For every received group the group type, TP flag and programme type name come from block 2, TA, music/speech and the one addressed decoder identification flag from 0A/0B/15B, and programme item number, start time, linkage, country, language, TMC identification, broadcaster bits and EWS from 1A/1B, each equal to the transmitted bit field or its name in the RDS (or with --rbds the RBDS) tables. "
  "A group type of version B is only claimed when the bit stream confirms it with C' or the input format carries no offset words. With --rbds the call sign derived from the PI according to NRSC-4 is shown for every PI that has one, marked uncertain for 1xxx codes, and never otherwise.",
  ["inputs", "configurations"], "all 65536 PI codes, all values of the blocks involved, RDS/RBDS, hex and bit input, every subset of lost blocks",
  "Tests look at a handful of captured groups; table lookups and bit fields need all values.",
  ["src/groups.cc", "src/tables.cc"],
  [("basics", "src/groups.cc decodeBasics/decodeType0/decodeType1/decodeType15B"), ("names", "src/tables.cc"), ("type validity", "src/groups.cc Group::setBlock")],
  ["group, tp, prog_type, ta, is_music, di, prog_item_*, has_linkage, country, language, tmc_id, slc_broadcaster_bits, ews, callsign"])
p("C10", "Enhanced other networks information is attributed to the right network",
  "Every 14A/14B group reports the other network's PI and TP and exactly the item its variant carries: PS name, alternative frequency list, mapped frequency, linkage (set number only when linked and non-zero), programme type, TA, programme item number or broadcaster data, each decoded from the transmitted bits. "
  "Partial PS names and frequency lists are accumulated separately per other-network PI: interleaving groups for several networks in any order never mixes their data, and they are reported only when complete.",
  ["histories", "inputs"], "all variants and data values, all interleavings of segments for several networks, lost blocks",
  "Tests decode one network at a time.",
  ["src/groups.cc"], [("EON", "src/groups.cc Station::decodeType14")], ["other_network"])
p("C11", "Open data routing and raw data groups",
  "A group type that can carry open data is decoded as the application most recently assigned to exactly that group type by a 3A group of the same station, never as another one; 3A groups report the assignment and the application's registered name, and unassigned or unsupported applications are shown as raw data with lost blocks as dashes. "
  "DAB cross references (mode, frequency, channel name, ensemble), transparent data (address, bytes, text, and the 128-byte message when received in order) and in-house data are reported exactly as transmitted. Group types reserved for fixed purposes are never rerouted.",
  ["histories", "inputs"], "all sequences of 3A assignments and data groups over all 32 group types and the supported applications, all data values, lost blocks",
  "Tests use one assignment each.",
  ["src/groups.cc", "src/tables.cc"],
  [("assignment", "src/groups.cc decodeType3A"), ("routing", "src/groups.cc updateAndPrint/decodeODAGroup"), ("payloads", "src/groups.cc parseDAB/decodeType5/decodeType6")],
  ["open_data_app, unknown_oda, dab, transparent_data, in_house_data"])
p("C12", "RDS2 streams and RFT files are delivered intact",
  "A file sent over an RFT pipe is output once per toggle and complete reception, as the base64 of exactly the announced number of bytes, only when every 5-byte segment of it was received since the last toggle change, regardless of the order, repetition or loss of segments and of the interleaving with other pipes and other groups; the 16 pipes never influence each other. "
  "Type C groups on upper streams are reported with their stream, pipe, toggle, address, data, channel assignment, file and CRC information exactly as transmitted, never as type A/B groups, and do not affect the PI or stream 0 decoding.",
  ["histories", "inputs"], "all segment orders/losses/repeats/toggles over small files, all file sizes, all header values, all pipes",
  "One recorded MPX file exercises one logo; that test cannot even run here.",
  ["src/rft.hh", "src/base64.hh", "src/groups.cc"],
  [("RFT assembly", "src/rft.hh RFTFile"), ("base64", "src/base64.hh"), ("type C", "src/groups.cc Station::decodeC")],
  ["rft, open_data_app, stream"])
p("C13", "TMC messages are assembled and worded exactly",
  "A TMC traffic message is reported only when a single group carries it entirely or when the first group and the last group of one multi-group message with the same continuity index were received in sequence, and then with exactly the transmitted events, supplementary codes, direction, extent, urgency, quantifiers, times, speed limit, diversion and location, adjusted by control codes, using all parts of that message and none of another one. "
  "Descriptions come from the ALERT-C event and supplementary lists with quantifier values converted to their units. System information and tuning information groups report their bit fields; nothing is decoded before the service's system information was received.",
  ["histories", "inputs"], "all event codes and supplementary codes, all quantifier values, all sequences of freeform fields up to the message size, all interleavings and losses of parts of two messages",
  "Tests decode four captured messages.",
  ["src/tmc/tmc.cc", "src/tmc/tmc.hh", "src/tmc/events_data.cc"],
  [("multi-group assembly", "src/tmc/tmc.cc Message::pushMulti/decodeMulti"), ("free-form fields", "src/tmc/tmc.cc getFreeformFields"), ("wording", "src/tmc/tmc.cc getDescriptionWithQuantifier")],
  ["tmc"])
p("C14", "TMC location tables and decryption give the right place",
  "With location tables loaded, a message whose service uses one of them is given the coordinates, road and span obtained by following that table's point offsets from the transmitted location in the direction and for the extent transmitted, stopping at missing points; data of another table number is never used, and an unknown location adds nothing. Each table is announced with its number and its numbers of points, roads and names when loaded. "
  "Malformed or incomplete rows and files, different line endings and encodings only lose the affected entries. Locations of encrypted services are shown only after decryption with the key of the announced encryption id, and are then the exact inverse of the ISO 14819-6 encryption.",
  ["configurations", "inputs", "fault_sequences"], "small tables with every defect in each row, every extent and direction, every key parameter and all 65536 locations",
  "No test loads a location table or a key.",
  ["src/tmc/locationdb.cc", "src/tmc/csv.cc", "src/tmc/csv.hh", "src/tmc/tmc.cc"],
  [("loader", "src/tmc/locationdb.cc"), ("location decoding", "src/tmc/tmc.cc decodeLocation"), ("keys", "src/tmc/tmc.cc loadServiceKeyTable/Message::decrypt")],
  ["tmc.message location, coordinates, road_*, span_*"])
p("C15", "Bits of blocks that were not received never influence the output",
  "For every input path and every subset of blocks lost in any group, the output (now and later) is the same whatever bits were transmitted in the lost blocks: unreceived blocks contribute neither values, zeros posing as values, nor group types. "
  "In particular a group with a lost block never yields a field whose bits lie in that block.",
  ["fault_sequences", "inputs", "histories"], "all group types, all subsets of lost blocks, in sequences with complete groups, for bits, hex and TEF input",
  "Tests delete one block in two captures.",
  ["src/groups.cc", "src/block_sync.cc", "src/io/input.cc"],
  [("has(BLOCKn) guards", "src/groups.cc"), ("block setting on reception only", "src/block_sync.cc, src/io/input.cc")],
  ["all JSON fields"])
p("C16", "Output is one well-formed line per group and hex output is lossless",
  "For every input, each decoded group produces exactly one line on the chosen output: a complete valid UTF-8 JSON object, or with hex output the received blocks as four-digit hex with dashes for lost ones and the RDS2 stream mark; options that add information (show-raw, bler, timestamp, streams, channel) add only their own fields. "
  "Feeding redsea's hex output back as hex input reproduces the same hex output, and the same decoded JSON as the original input when that was hex or TEF data with at least one block received in every group, or error-free bits. raw_data always equals the received blocks.",
  ["inputs", "configurations", "histories"], "all group types, lost-block subsets, byte values in texts incl. invalid UTF-8, and all combinations of output options",
  "Tests check one hex line and one invalid UTF-8 capture.",
  ["src/groups.cc", "src/io/output.hh", "src/channel.cc"],
  [("JSON printing", "src/groups.cc Station::updateAndPrint"), ("hex printing", "src/groups.cc Group::printHex, src/io/output.hh")],
  ["stdout lines"])
p("C17", "Hex, TEF6686 and ASCII-bit inputs are parsed faithfully",
  "Every well-formed RDS Spy hex line, TEF6686 P/R line pair, and every '0'/'1' character is taken at its exact value, in order, with trailing annotations, blank or short lines, line-ending differences and other characters ignored; a block is taken as received only if all four of its digits are present and valid (hex) or its error bits are clear (TEF). "
  "A malformed line never corrupts the groups of other lines, and the end of the input adds nothing of its own.",
  ["inputs"], "all lines over a small alphabet up to group length with every character deleted, replaced or inserted; all TEF error bytes; all bit strings with noise characters",
  "No test exercises the text input parsers.",
  ["src/io/input.cc", "src/redsea.cc"],
  [("parsers", "src/io/input.cc readHexGroup/readTEFGroup/AsciiBitReader"), ("input loops", "src/redsea.cc")],
  ["stdout of the redsea command"])
p("C18", "No input makes the decoder crash, hang or corrupt memory",
  "Whatever bits, groups, text lines, location tables, key files or command-line values are supplied, in any order, the decoder terminates normally when the input ends, without memory errors, undefined behaviour, failed assertions, uncaught exceptions or unbounded loops, and keeps decoding later groups correctly.",
  ["inputs", "histories", "configurations"], "all group types with boundary field values in all sequences up to a depth, lost-block subsets, malformed text and table files, under sanitizers",
  "Tests run a few captures without instrumentation.",
  ["src/groups.cc", "src/tmc/tmc.cc", "src/rft.hh", "src/util.cc", "src/text/rdsstring.cc", "src/io/input.cc"],
  [("bounds checks", "throughout"), ("exception handling", "src/groups.cc, src/tmc/*")], ["process exit, sanitizer reports"])
p("C19", "A clean MPX signal is decoded to the transmitted groups",
  "A multiplex signal that carries an intact RDS subcarrier within the supported sample rates (128 kHz to 40 MHz, any start phase, carrier phase, level above the noise and small clock error) is decoded, after a bounded acquisition time, to exactly the transmitted sequence of groups with no errors; with --streams the RDS2 subcarriers are decoded likewise on their own streams, and after a long loss of signal decoding resumes with the new station, or afresh with the same one: once its PI has been confirmed again, nothing received before the loss is used.",
  ["inputs", "configurations"], "a grid of sample rates, bit phases, carrier phases, frequency and clock offsets, levels and streams",
  "The two MPX tests need LFS files that are absent; even with them there is one recording.",
  ["src/dsp/subcarrier.cc", "src/dsp/liquid_wrappers.cc", "src/io/input.cc", "src/redsea.cc"],
  [("demodulation chain", "src/dsp/subcarrier.cc"), ("carrier loss reset", "src/redsea.cc processMPXInput")], ["JSON/hex lines from MPX input"])
p("C20", "Channels, streams and input chunking are independent of each other",
  "The decoded output for one channel or data stream depends only on that channel's or stream's own signal (a change of station on stream 0 restarting all streams of its channel): it is the same whatever the other channels carry, however many there are, however the bits of different streams are interleaved and however the input is split into chunks, including the final partial chunk. Every line names the channel it came from when there are several.",
  ["schedules", "inputs", "configurations"], "all interleavings and partitions of short bit sequences over streams and channels; all input lengths around chunk boundaries; channel counts",
  "No test uses more than one channel or varies chunking.",
  ["src/io/input.cc", "src/channel.cc", "src/redsea.cc", "src/dsp/subcarrier.cc"],
  [("channel separation", "src/io/input.cc MPXReader::readChunk"), ("per-stream block sync", "src/channel.cc"), ("global caches", "src/tmc/tmc.cc, src/block_sync.cc")],
  ["stdout lines, sample buffers"])
p("C21", "The reported block error rate is the true average over the last 12 groups",
  "With --bler every line's bler is the percentage, rounded to the nearest integer, of blocks with errors before correction (or missing blocks for inputs without error information) among the last twelve processed groups, always between 0 and 100; groups before the first count as error-free, and groups that are not printed still count.",
  ["histories"], "all error-count histories around the window length, for bit and hex input, corrected and uncorrected errors",
  "One test with one history.",
  ["src/channel.cc", "src/util.hh", "src/groups.cc"], [("running average", "src/util.hh RunningAverage"), ("error count", "src/groups.cc Group::getNumErrors")], ["bler"])
p("C22", "Receive timestamps are monotonic and formatted as requested",
  "With --timestamp every line carries a receive time in the requested strftime format (with %f giving hundredths truncated, never rounded up into the next second), and the times of successive lines of a channel never decrease, whatever the system clock or the buffering does; for buffered input a group's time is the buffer's time minus the duration of the bits that followed it.",
  ["schedules", "histories", "inputs"], "all sequences of clock readings (steps forwards and backwards) and buffer sizes up to a depth; all sub-second values",
  "Unit tests format one instant.",
  ["src/channel.cc", "src/util.cc", "src/io/input.cc"], [("clamping", "src/channel.cc processGroup/processBits"), ("formatting", "src/util.cc getTimePointString")], ["rx_time"])
p("C23", "Command-line options are validated and mean what the manual says",
  "Every combination of documented options either is rejected with a diagnostic and a failure exit code (unknown formats, channel counts outside 1..32, sample rates outside 128 kHz..40 MHz, unsupported combinations of input type with channels, streams or feed-through) or takes effect exactly as documented; long, short and legacy spellings are equivalent and the order of options that do not contradict each other does not matter.",
  ["configurations"], "all pairs and small subsets of options in all orders with boundary argument values",
  "No test parses options.",
  ["src/options.cc", "src/redsea.cc"], [("option parsing", "src/options.cc getOptions")], ["exit code, stderr, decoded output"])
p("C24", "Feed-through echoes the input unchanged",
  "With --feed-through what is read from standard input (raw PCM samples, hex groups, TEF6686 lines or bits) is written to standard output byte for byte and in full, for any content and length, while decoded groups, the same as without it, go to standard error only.",
  ["inputs"], "all 65536 sample values, all lengths around the chunk size, all channel counts, all byte values and cuts of text input",
  "No test uses feed-through.",
  ["src/io/input.cc", "src/redsea.cc"], [("feed-through", "src/io/input.cc MPXReader::fillBuffer, AsciiBitReader::readBit, readHexGroup, readTEFGroup")], ["stdout bytes"])
p("C25", "Output keeps up with the input and never depends on later input",
  "A decoder listening to live input reports each group when it arrives: as soon as the last line (hex, TEF6686) or the last bit of a group has been read, or for signals within two input buffers of 8192 values, the group's line of output (JSON or hex, on whichever stream it goes to) has been written out in full, although the input stays open and nothing more arrives. What has been printed does not depend on what is yet to come: the output for the beginning of an input is the beginning of the output for all of it, in each channel and data stream, but for the line of a group that the end of the input cuts short.",
  ["inputs", "schedules"], "every line, group and several bit positions of text inputs as the point up to which the input has arrived, with all features and output options; every buffer and a grid of lengths of signals of one to three channels",
  "Tests use complete inputs in files or strings; none watches the output while the input is still open.",
  ["src/redsea.cc", "src/channel.cc", "src/groups.cc", "src/io/output.hh", "src/io/input.cc"], [("main loops", "src/redsea.cc processMPXInput, processHexInput, processTEFInput, processASCIIBitsInput"), ("flushing of each line", "src/groups.cc Station::updateAndPrint; src/io/output.hh printAsHex")], ["stdout and stderr over time"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, e["id"]
        f.write(json.dumps(e, ensure_ascii=False) + "\n")
