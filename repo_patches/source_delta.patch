From 608c030d5dcec0904ac51fecfc596e6278e15295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:39 +0000
Subject: [PATCH 01/31] fix: count multi-byte UTF-8 characters correctly in RT+
 tags

A tag that started right after, or ended in, a run of non-ASCII characters was
cut in the middle of a character, and the whole line was replaced by an error.
---
 src/text/rdsstring.hh | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/text/rdsstring.hh b/src/text/rdsstring.hh
index f10227d..06e1b3d 100644
--- a/src/text/rdsstring.hh
+++ b/src/text/rdsstring.hh
@@ -27,19 +27,17 @@ namespace redsea {
 // Length of a UTF-8 character starting at byte_start.
 // 0 on error.
 inline std::size_t charlen(const std::string& str, std::size_t byte_start) {
-  std::size_t nbyte{byte_start};
-
-  if (nbyte >= str.length())
+  if (byte_start >= str.length())
     return 0;
 
-  while ((static_cast<std::uint8_t>(str[nbyte]) & 0b1100'0000U) == 0b1000'0000U) {
+  // Skip the lead byte and any continuation bytes
+  std::size_t nbyte{byte_start + 1};
+  while (nbyte < str.length() &&
+         (static_cast<std::uint8_t>(str[nbyte]) & 0b1100'0000U) == 0b1000'0000U) {
     nbyte++;
-
-    if (nbyte >= str.length())
-      return 0;
   }
 
-  return nbyte - byte_start + 1;
+  return nbyte - byte_start;
 }
 
 // An RDSString can be RadioText, Program Service name, or Enhanced RadioText.
-- 
2.43.0


From fb04fad4d027fd581d8fdee0a007ed2745249ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:39 +0000
Subject: [PATCH 02/31] fix: RT+ tags that end in the last character of the
 text were dropped

---
 src/text/rdsstring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/rdsstring.cc b/src/text/rdsstring.cc
index 2901767..4317cb1 100644
--- a/src/text/rdsstring.cc
+++ b/src/text/rdsstring.cc
@@ -194,7 +194,7 @@ std::string RDSString::getLastCompleteString(std::size_t start, std::size_t len)
     byte_end += clen;
   }
 
-  return byte_end < last_complete_string_.length()
+  return byte_end <= last_complete_string_.length()
              ? last_complete_string_.substr(byte_start, byte_end - byte_start)
              : "";
 }
-- 
2.43.0


From 6e96e51c877e2ac967e17fba3e8619474ef87388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:39 +0000
Subject: [PATCH 03/31] fix: Enhanced RadioText can be 128 bytes long

Longer messages were reported as complete after 64 bytes.
---
 src/groups.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/groups.cc b/src/groups.cc
index f4f93be..8e7574c 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -234,7 +234,10 @@ void Group::printHex(std::ostream& stream) const {
  * @param which_channel Which PCM channel the station is on
  */
 Station::Station(const Options& options, int which_channel)
-    : options_(options), which_channel_(which_channel), tmc_(options) {}
+    : options_(options), which_channel_(which_channel), tmc_(options) {
+  // Enhanced RadioText has 32 segments of 4 bytes
+  ert_.text.resize(128);
+}
 
 Station::Station(const Options& options, int which_channel, std::uint16_t pi)
     : Station(options, which_channel) {
-- 
2.43.0


From 1aeb556c6dbbe8919793f3027281c9673928228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:39 +0000
Subject: [PATCH 04/31] fix: TMC messages of 3 and 4 groups lost the free-form
 data after the second group

Parts that a message of this length does not use ended the loop.
---
 src/tmc/tmc.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index f9ac1b7..181ce57 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -83,10 +83,10 @@ std::vector<FreeformField> getFreeformFields(const std::array<MessagePart, 5>& p
   // GSI of second group)
   std::deque<bool> freeform_data_bits;
   for (std::size_t i = 1; i < parts.size(); i++) {
-    if (!parts[i].is_received)
-      break;
-
     if (i == 1 || i >= parts.size() - second_gsi) {
+      if (!parts[i].is_received)
+        break;
+
       for (int b = 0; b < 12; b++)
         freeform_data_bits.push_back(static_cast<std::uint16_t>(parts[i].data[0] >> (11U - b)) &
                                      1U);
-- 
2.43.0


From 7cda2ed1e084cea71ab693c47de729705e27ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:39 +0000
Subject: [PATCH 05/31] fix: separate the channels also in the last chunk of a
 multi-channel signal

---
 src/io/input.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index dd2717e..fb1e771 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -133,9 +133,6 @@ MPXBuffer& MPXReader::readChunk(std::uint32_t channel) {
                            std::to_string(num_channels_) + "-channel signal");
   }
 
-  if (is_eof_)
-    return buffer_;
-
   if (num_channels_ == 1) {
     return buffer_;
   } else {
-- 
2.43.0


From f06de7ed21cea016719ddc755a6e2b1fed681fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:39 +0000
Subject: [PATCH 06/31] fix: keep receive timestamps monotonic after the clock
 was set back twice

---
 src/channel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/channel.cc b/src/channel.cc
index 13f75b3..dc5513d 100644
--- a/src/channel.cc
+++ b/src/channel.cc
@@ -101,13 +101,13 @@ void Channel::processBits(const BitBuffer& buffer, std::size_t which_stream) {
 void Channel::processGroup(Group group, std::size_t which_stream) {
   if (options_.timestamp && !group.hasTime()) {
     auto now = std::chrono::system_clock::now();
-    group.setTime(now);
 
     // When the source is faster than real-time, backwards timestamp calculation
     // produces meaningless results. We want to make sure that the time stays monotonic.
     if (now < last_group_rx_time_) {
-      group.setTime(last_group_rx_time_);
+      now = last_group_rx_time_;
     }
+    group.setTime(now);
     last_group_rx_time_ = now;
   }
 
-- 
2.43.0


From c7c12a9321e3adfc2e7f72ebf6627166feac05b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:39 +0000
Subject: [PATCH 07/31] fix: clock_time depended on the time zone of the host

Times that do not exist on the host because of a DST change were off by one hour.
---
 src/groups.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/groups.cc b/src/groups.cc
index 8e7574c..8b96a30 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -772,13 +772,14 @@ void Station::decodeType4A(const Group& group) {
   utc_plus_offset_tm.tm_year  = year_utc - 1900;
   utc_plus_offset_tm.tm_mon   = month_utc - 1;
   utc_plus_offset_tm.tm_mday  = day_utc;
-  utc_plus_offset_tm.tm_isdst = -1;
+  utc_plus_offset_tm.tm_isdst = 0;
   utc_plus_offset_tm.tm_hour  = static_cast<int>(hour_utc);
   utc_plus_offset_tm.tm_min   = static_cast<int>(minute_utc);
   utc_plus_offset_tm.tm_sec   = static_cast<int>(local_offset * 3600.0);
 
-  const std::time_t local_t     = std::mktime(&utc_plus_offset_tm);
-  const std::tm* const local_tm = std::localtime(&local_t);
+  // The offset is already included, so the host's own time zone must not play a part here
+  const std::time_t local_t     = timegm(&utc_plus_offset_tm);
+  const std::tm* const local_tm = std::gmtime(&local_t);
 
   const bool is_date_valid =
       hour_utc <= 23 && minute_utc <= 59 && std::fabs(std::trunc(local_offset)) <= 14.0;
-- 
2.43.0


From c18546564b17807b48e00e8b0afa2d76c93afe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:51 +0000
Subject: [PATCH 08/31] fix: don't accept blocks with missing digits in hex
 input

A line that ended in the middle of a block made a truncated block, and the
blocks after it, look as if they had been received.
---
 src/io/input.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index fb1e771..e54bd32 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -212,7 +212,8 @@ Group readHexGroup(const Options& options) {
       int which_nibble = 0;
       while (which_nibble < 4) {
         if (line.length() < 1) {
-          group_complete = true;
+          block_still_valid = false;
+          group_complete    = true;
           break;
         }
 
-- 
2.43.0


From d942492fa81ab767cbf1ef96bb5f25856919145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:51 +0000
Subject: [PATCH 09/31] fix: TEF error bits of one block affected the other
 blocks

Each block has two error bits. Also, the group type must not be taken from a
block that was not received.
---
 src/io/input.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index e54bd32..df8d6bd 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -283,13 +283,16 @@ Group readTEFGroup(const Options& options) {
         blocks[2].data = std::stol(line.substr(9, 4), nullptr, 16);
 
         const auto rds_err = static_cast<std::uint32_t>(std::stol(line.substr(13, 2), nullptr, 16));
-        blocks[0].is_received = (static_cast<std::uint32_t>(rds_err >> 4U) & 0xFFU) == 0;
-        blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0xFFU) == 0;
-        blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0xFFU) == 0;
-
-        group.setBlock(BLOCK2, blocks[0]);
-        group.setBlock(BLOCK3, blocks[1]);
-        group.setBlock(BLOCK4, blocks[2]);
+        blocks[0].is_received = (static_cast<std::uint32_t>(rds_err >> 4U) & 0x3U) == 0;
+        blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0x3U) == 0;
+        blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0x3U) == 0;
+
+        if (blocks[0].is_received)
+          group.setBlock(BLOCK2, blocks[0]);
+        if (blocks[1].is_received)
+          group.setBlock(BLOCK3, blocks[1]);
+        if (blocks[2].is_received)
+          group.setBlock(BLOCK4, blocks[2]);
       } catch (const std::exception&) {
         break;
       }
-- 
2.43.0


From 1ffd4bff1968880f8ea4e3f284b770be68866e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:51 +0000
Subject: [PATCH 10/31] fix: lost blocks were reported as zeros in transparent
 data (group 5)

---
 src/groups.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/groups.cc b/src/groups.cc
index 8b96a30..f53a38d 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -812,6 +812,9 @@ void Station::decodeType5(const Group& group) {
   json_["transparent_data"]["address"] = address;
 
   if (group.getType().version == GroupType::Version::A) {
+    if (!(group.has(BLOCK3) && group.has(BLOCK4)))
+      return;
+
     const std::array<std::uint8_t, 4> data{
         getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0),
         getUint8(group.get(BLOCK4), 8), getUint8(group.get(BLOCK4), 0)};
@@ -839,6 +842,9 @@ void Station::decodeType5(const Group& group) {
 
     json_["transparent_data"]["as_text"] = decoded_text.str();
   } else {
+    if (!group.has(BLOCK4))
+      return;
+
     const std::array<std::uint8_t, 2> data{getUint8(group.get(BLOCK4), 8),
                                            getUint8(group.get(BLOCK4), 0)};
 
-- 
2.43.0


From 0daa8b1ad069bd9dda64c14ceb109ad6f943f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:51 +0000
Subject: [PATCH 11/31] fix: a lost block 3 was received as zeros in Enhanced
 RadioText

---
 src/groups.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/groups.cc b/src/groups.cc
index f53a38d..99b0416 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -1260,7 +1260,9 @@ void parseRadioTextPlus(const Group& group, RadioText& rt, nlohmann::ordered_jso
 void Station::parseEnhancedRT(const Group& group) {
   const std::size_t position = getBits<5>(group.get(BLOCK2), 0) * 4U;
 
-  ert_.update(position, getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0));
+  if (group.has(BLOCK3)) {
+    ert_.update(position, getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0));
+  }
 
   if (group.has(BLOCK4)) {
     ert_.update(position + 2U, getUint8(group.get(BLOCK4), 8), getUint8(group.get(BLOCK4), 0));
-- 
2.43.0


From ea6a08adfe1c3c9d4daa00453487b2316a48aeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:52 +0000
Subject: [PATCH 12/31] fix: lost blocks were taken as zeros in DAB
 cross-referencing

---
 src/groups.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/groups.cc b/src/groups.cc
index 99b0416..11918f0 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -1288,6 +1288,9 @@ void Station::parseDAB(const Group& group) {
     const std::array<std::string, 4> modes{"unspecified", "I", "II or III", "IV"};
     json_["dab"]["mode"] = modes[mode];
 
+    if (!(group.has(BLOCK3) && group.has(BLOCK4)))
+      return;
+
     const std::uint32_t freq = 16 * getBits<18>(group.get(BLOCK2), group.get(BLOCK3), 0);
 
     json_["dab"]["kilohertz"] = freq;
-- 
2.43.0


From 1bdfb7fb0022ede2b41007b1ac8a77600903bd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:52 +0000
Subject: [PATCH 13/31] fix: the last partial group of data stream 0 was not
 processed at the end of input

---
 src/channel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/channel.cc b/src/channel.cc
index dc5513d..1b75787 100644
--- a/src/channel.cc
+++ b/src/channel.cc
@@ -145,7 +145,7 @@ void Channel::processGroup(Group group, std::size_t which_stream) {
 
 // Process any remaining data
 void Channel::flush() {
-  for (std::size_t i = 1; i < block_stream_.size(); ++i) {
+  for (std::size_t i = 0; i < block_stream_.size(); ++i) {
     const Group remaining_group = block_stream_[i].flushCurrentGroup();
     if (!remaining_group.isEmpty())
       processGroup(remaining_group, i);
-- 
2.43.0


From f9a06d6b57f3d3bcb0c11a031e85e039277e0eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:52 +0000
Subject: [PATCH 14/31] fix: the end of ASCII bit input was received as an
 extra 0 bit

---
 src/io/input.cc | 2 +-
 src/redsea.cc   | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index df8d6bd..cd4eef5 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -163,7 +163,7 @@ bool AsciiBitReader::readBit() {
   int chr = 0;
   while (chr != '0' && chr != '1' && chr != EOF) {
     chr = std::getchar();
-    if (feed_thru_)
+    if (feed_thru_ && chr != EOF)
       std::putchar(chr);
   }
 
diff --git a/src/redsea.cc b/src/redsea.cc
index 5d92ba2..93e1c28 100644
--- a/src/redsea.cc
+++ b/src/redsea.cc
@@ -169,8 +169,11 @@ int processASCIIBitsInput(const Options& options) {
   Channel channel(options, 0, options.feed_thru ? std::cerr : std::cout);
   AsciiBitReader ascii_reader(options);
 
-  while (!ascii_reader.eof()) {
-    channel.processBit(ascii_reader.readBit(), 0);
+  while (true) {
+    const bool bit = ascii_reader.readBit();
+    if (ascii_reader.eof())
+      break;
+    channel.processBit(bit, 0);
   }
 
   channel.flush();
-- 
2.43.0


From f43892a3a1f367ccffa1563ffb3c4de50c9dab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:52 +0000
Subject: [PATCH 15/31] fix: print the frequencies in TMC tuning information
 variant 6

They were only stored after a list length code, which this variant does not have.
---
 src/tmc/tmc.cc | 13 +++++--------
 src/tmc/tmc.hh |  1 -
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index 181ce57..67fe470 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -542,19 +542,16 @@ void TMCService::receiveUserGroup(std::uint16_t x, std::uint16_t y, std::uint16_
 
       case 6: {
         const std::uint16_t on_pi = z;
-        if (other_network_freqs_.find(on_pi) == other_network_freqs_.end())
-          other_network_freqs_.insert({on_pi, AltFreqList()});
-
-        other_network_freqs_.at(on_pi).insert(getUint8(y, 8));
-        other_network_freqs_.at(on_pi).insert(getUint8(y, 0));
 
         /* Here, the alternative frequencies are printed out right away -
            DKULTUR, for example, does not transmit information about the total
            length of the list */
         (*jsonroot)["tmc"]["other_network"]["pi"] = getPrefixedHexString<4>(on_pi);
-        for (const int frequency : other_network_freqs_.at(on_pi).getRawList())
-          (*jsonroot)["tmc"]["other_network"]["frequencies_khz"].push_back(frequency);
-        other_network_freqs_.clear();
+        for (const auto code : {getUint8(y, 8), getUint8(y, 0)}) {
+          const CarrierFrequency frequency(code);
+          if (frequency.isValid())
+            (*jsonroot)["tmc"]["other_network"]["frequencies_khz"].push_back(frequency.kHz());
+        }
         break;
       }
 
diff --git a/src/tmc/tmc.hh b/src/tmc/tmc.hh
index c0ba0a3..ecc8554 100644
--- a/src/tmc/tmc.hh
+++ b/src/tmc/tmc.hh
@@ -184,7 +184,6 @@ class TMCService {
   Message message_;
   std::map<std::uint16_t, ServiceKey> service_key_table_;
   RDSString ps_;
-  std::map<std::uint16_t, AltFreqList> other_network_freqs_;
 };
 
 }  // namespace tmc
-- 
2.43.0


From b1aedfc61f37cdbf341ae7a9d0abc1b281b47e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:52 +0000
Subject: [PATCH 16/31] fix: feed-through changed the samples by rounding

---
 src/io/input.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index cd4eef5..66f3c8c 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -122,8 +122,13 @@ void MPXReader::fillBuffer() {
 
   buffer_.used_size = static_cast<size_t>(num_read_);
 
-  if (feed_thru_)
-    sf_write_float(outfile_, buffer_.data.data(), num_read_);
+  if (feed_thru_) {
+    // sf_write_float() would scale by 32767, and reading has scaled by 1/32768
+    std::array<std::int16_t, kInputChunkSize> raw{};
+    for (std::size_t i = 0; i < buffer_.used_size; i++)
+      raw[i] = static_cast<std::int16_t>(std::lround(buffer_.data[i] * 32768.f));
+    sf_write_short(outfile_, raw.data(), num_read_);
+  }
 }
 
 // @throws logic_error if channel is out-of-bounds
-- 
2.43.0


From 16c5c096a9bf59db19f3c50baa613681a5f6747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:52 +0000
Subject: [PATCH 17/31] fix: reject channel counts that wrap around to a small
 number

---
 src/options.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/options.cc b/src/options.cc
index ca9a730..13f3c50 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -74,12 +74,13 @@ Options getOptions(int argc, char** argv) {
         options.input_type = InputType::ASCIIbits;
         break;
       case 'c': {
-        options.num_channels = static_cast<std::uint32_t>(std::strtoul(optarg, nullptr, 10));
+        const unsigned long num_channels = std::strtoul(optarg, nullptr, 10);
         // Channels take up memory, and we don't want to fill it up by accident.
         constexpr int kMaxNumChannels{32};
-        if (errno == ERANGE || options.num_channels < 1 || options.num_channels > kMaxNumChannels) {
+        if (errno == ERANGE || num_channels < 1 || num_channels > kMaxNumChannels) {
           throw std::runtime_error("check the number of channels");
         }
+        options.num_channels            = static_cast<std::uint32_t>(num_channels);
         options.is_num_channels_defined = true;
         break;
       }
-- 
2.43.0


From e6df592ef34e02ae572eba0a2ee388e6f3a8b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:53 +0000
Subject: [PATCH 18/31] fix: keep receive timestamps of hex input monotonic

---
 src/channel.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/channel.cc b/src/channel.cc
index 1b75787..d79a46a 100644
--- a/src/channel.cc
+++ b/src/channel.cc
@@ -99,16 +99,16 @@ void Channel::processBits(const BitBuffer& buffer, std::size_t which_stream) {
 // Handle this group as if it was just received.
 // \param which_stream Which data stream was it received on, 0..3
 void Channel::processGroup(Group group, std::size_t which_stream) {
-  if (options_.timestamp && !group.hasTime()) {
-    auto now = std::chrono::system_clock::now();
+  if (options_.timestamp) {
+    auto group_time = group.hasTime() ? group.getRxTime() : std::chrono::system_clock::now();
 
     // When the source is faster than real-time, backwards timestamp calculation
     // produces meaningless results. We want to make sure that the time stays monotonic.
-    if (now < last_group_rx_time_) {
-      now = last_group_rx_time_;
+    if (group_time < last_group_rx_time_) {
+      group_time = last_group_rx_time_;
     }
-    group.setTime(now);
-    last_group_rx_time_ = now;
+    group.setTime(group_time);
+    last_group_rx_time_ = group_time;
   }
 
   if (options_.bler) {
-- 
2.43.0


From a4ac4cf41852e22079f4b48f003711dec3672940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:21 +0000
Subject: [PATCH 19/31] fix: a location table in an unknown encoding ended the
 program

---
 src/tmc/locationdb.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index cf36a44..29d2ffd 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -19,6 +19,7 @@
 #include <climits>
 #include <cstdint>
 #include <exception>
+#include <memory>
 #include <ostream>
 #include <regex>
 #include <string>
@@ -75,13 +76,19 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
   if (std::regex_match(encoding, std::regex("ISO.8859-15\\b.*")))
     encoding = "ISO-8859-15";
 
-  const iconvpp::converter converter("UTF-8", encoding);
+  std::unique_ptr<iconvpp::converter> converter;
+  try {
+    converter = std::make_unique<iconvpp::converter>("UTF-8", encoding);
+  } catch (const std::exception&) {
+    // Unknown encoding
+    converter = std::make_unique<iconvpp::converter>("UTF-8", "UTF-8");
+  }
 
   CSVTable table = readCSVWithTitles(directory + "/NAMES.DAT", ';');
   for (const CSVRow& row : table.rows) {
     try {
       const int nid    = get_int(table, row, "NID");
-      locdb.names[nid] = to_utf8(get_string(table, row, "NAME"), converter);
+      locdb.names[nid] = to_utf8(get_string(table, row, "NAME"), *converter);
     } catch (const std::exception&) {
       continue;
     }
-- 
2.43.0


From 69e73e5105c9396496cda997e3d8a76bb6d18950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:21 +0000
Subject: [PATCH 20/31] fix: the first and last point of a road lost both of
 their offsets

---
 src/tmc/locationdb.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index 29d2ffd..defccfc 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -165,8 +165,13 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
   for (const CSVRow& row : table.rows) {
     try {
       const auto lcd = get_uint16(table, row, "LCD");
-      const auto neg = get_uint16(table, row, "NEG_OFF_LCD");
-      const auto pos = get_uint16(table, row, "POS_OFF_LCD");
+      // Either one is empty at the end of a road
+      const auto neg = row_contains(table, row, "NEG_OFF_LCD")
+                           ? get_uint16(table, row, "NEG_OFF_LCD")
+                           : std::uint16_t{0};
+      const auto pos = row_contains(table, row, "POS_OFF_LCD")
+                           ? get_uint16(table, row, "POS_OFF_LCD")
+                           : std::uint16_t{0};
       if (locdb.points.find(lcd) != locdb.points.end()) {
         locdb.points[lcd].neg_off = neg;
         locdb.points[lcd].pos_off = pos;
-- 
2.43.0


From 0b613be783f66a8ec6fd32b97458e7cf486ae14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:21 +0000
Subject: [PATCH 21/31] fix: out-of-range location codes in a table overwrote
 other locations

---
 src/tmc/csv.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tmc/csv.cc b/src/tmc/csv.cc
index cb12821..6274095 100644
--- a/src/tmc/csv.cc
+++ b/src/tmc/csv.cc
@@ -2,6 +2,7 @@
 
 #include <cstdint>
 #include <fstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -47,7 +48,10 @@ int get_int(const CSVTable& table, const CSVRow& row, const std::string& title)
 }
 
 std::uint16_t get_uint16(const CSVTable& table, const CSVRow& row, const std::string& title) {
-  return static_cast<std::uint16_t>(get_int(table, row, title));
+  const int value = get_int(table, row, title);
+  if (value < 0 || value > UINT16_MAX)
+    throw std::out_of_range("Value out of range");
+  return static_cast<std::uint16_t>(value);
 }
 
 bool row_contains(const CSVTable& table, const CSVRow& row, const std::string& title) {
-- 
2.43.0


From 93fe1f4b577e487e41f6425d787eed4d3f1ed1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:21 +0000
Subject: [PATCH 22/31] fix: undefined shift with an invalid service key

---
 src/tmc/tmc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index 67fe470..f544785 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -370,6 +370,10 @@ std::map<std::uint16_t, ServiceKey> loadServiceKeyTable() {
       continue;
     }
 
+    // The bits to be XORed are within the 16-bit location
+    if (key.xorstart > 15)
+      continue;
+
     result.insert({encid, key});
   }
 
-- 
2.43.0


From 6e77a9520321ac4837d03fb8c67fa2cb8a6bfa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:21 +0000
Subject: [PATCH 23/31] fix: empty names in a location table referred to a null
 pointer

---
 ext/iconvpp/iconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/iconvpp/iconv.hpp b/ext/iconvpp/iconv.hpp
index c235d03..63d464a 100644
--- a/ext/iconvpp/iconv.hpp
+++ b/ext/iconvpp/iconv.hpp
@@ -68,7 +68,7 @@ class converter {
     // copy the string to a buffer as iconv function requires a non-const char
     // pointer.
     std::vector<char> in_buf(input.begin(), input.end());
-    char* src_ptr = &in_buf[0];
+    char* src_ptr = in_buf.data();
     size_t src_size = input.size();
 
     std::vector<char> buf(buf_size_);
-- 
2.43.0


From d4f3322c8b6f5e7729cf37ebf7de7bf4615eafad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:36 +0000
Subject: [PATCH 24/31] fix: groups of a multi-channel signal were timestamped
 1970

---
 src/io/input.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 66f3c8c..46c7238 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -141,7 +141,8 @@ MPXBuffer& MPXReader::readChunk(std::uint32_t channel) {
   if (num_channels_ == 1) {
     return buffer_;
   } else {
-    buffer_singlechan_.used_size = buffer_.used_size / num_channels_;
+    buffer_singlechan_.time_received = buffer_.time_received;
+    buffer_singlechan_.used_size     = buffer_.used_size / num_channels_;
     for (size_t i = 0; i < buffer_singlechan_.used_size; i++)
       buffer_singlechan_.data[i] = buffer_.data[i * num_channels_ + channel];
 
-- 
2.43.0


From 70c4bc79bc686fe397d34ed3277bec46a196a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:20 +0000
Subject: [PATCH 25/31] fix: sample rates above 34.2 MHz were accepted but
 ended the program

---
 src/dsp/liquid_wrappers.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dsp/liquid_wrappers.cc b/src/dsp/liquid_wrappers.cc
index 9e958dd..0e96365 100644
--- a/src/dsp/liquid_wrappers.cc
+++ b/src/dsp/liquid_wrappers.cc
@@ -23,6 +23,8 @@
 #include <cstdint>
 #include <stdexcept>
 
+#include "src/constants.hh"
+
 #pragma clang diagnostic push
 #pragma clang diagnostic ignored "-Wdeprecated-declarations"
 // https://github.com/jgaeddert/liquid-dsp/issues/229
@@ -220,7 +222,8 @@ Resampler::Resampler(std::uint32_t length)
 
 void Resampler::setRatio(float ratio) {
   // Liquid can't take < 0.004, and we only reserved kOutputArraySize in the output buffer.
-  if (ratio < 0.005f || ratio > static_cast<float>(kOutputArraySize)) {
+  if (ratio < redsea::kLiquidMinimumResamplerRatio ||
+      ratio > static_cast<float>(kOutputArraySize)) {
     throw std::runtime_error("error: Can't support this sample rate");
   }
   resamp_rrrf_set_rate(object_, ratio);
-- 
2.43.0


From 9a78e478d63c2066c78bea679598a06652a5300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:59 +0000
Subject: [PATCH 26/31] fix: reject negative channel counts that wrap around to
 a small number

---
 src/options.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/options.cc b/src/options.cc
index 13f3c50..ddd4459 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -74,7 +74,7 @@ Options getOptions(int argc, char** argv) {
         options.input_type = InputType::ASCIIbits;
         break;
       case 'c': {
-        const unsigned long num_channels = std::strtoul(optarg, nullptr, 10);
+        const long num_channels = std::strtol(optarg, nullptr, 10);
         // Channels take up memory, and we don't want to fill it up by accident.
         constexpr int kMaxNumChannels{32};
         if (errno == ERANGE || num_channels < 1 || num_channels > kMaxNumChannels) {
-- 
2.43.0


From d49601c28fe6c387092c12a9d8c5112d492a4e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:05 +0000
Subject: [PATCH 27/31] fix: a strong signal was not decoded after digital
 silence

---
 src/dsp/liquid_wrappers.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dsp/liquid_wrappers.cc b/src/dsp/liquid_wrappers.cc
index 0e96365..6fd51cc 100644
--- a/src/dsp/liquid_wrappers.cc
+++ b/src/dsp/liquid_wrappers.cc
@@ -52,6 +52,13 @@ AGC::~AGC() {
 std::complex<float> AGC::execute(std::complex<float> s) {
   std::complex<float> result;
   agc_crcf_execute(object_, s, &result);
+
+  // In digital silence the gain would otherwise rise so high that the symbol synchronizer is
+  // thrown off for a long time when the signal returns
+  constexpr float kMaxGain = 1e4f;
+  if (agc_crcf_get_gain(object_) > kMaxGain)
+    agc_crcf_set_gain(object_, kMaxGain);
+
   return result;
 }
 
-- 
2.43.0


From 2c6f4dc154a2cf444cf653b99bcbce15d03b1d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:36 +0000
Subject: [PATCH 28/31] fix: keep a TMC point whose segment's road is unknown

---
 src/tmc/locationdb.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index defccfc..b430c49 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -149,11 +149,8 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
       if (locdb.names.find(rnid) != locdb.names.end())
         point.road_name = locdb.names[rnid];
 
-      if (point.roa_lcd == 0 && locdb.segments.find(point.seg_lcd) != locdb.segments.end()) {
-        point.roa_lcd   = locdb.segments.at(point.seg_lcd).roa_lcd;
-        point.road_name = locdb.roads.at(point.roa_lcd).name;
-        point.road_name = locdb.names[rnid];
-      }
+      if (point.roa_lcd == 0 && locdb.segments.find(point.seg_lcd) != locdb.segments.end())
+        point.roa_lcd = locdb.segments.at(point.seg_lcd).roa_lcd;
 
       locdb.points[point.lcd] = point;
     } catch (const std::exception&) {
-- 
2.43.0


From 8a6b55910db3161610acf0b68ede650aa1cec737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:36 +0000
Subject: [PATCH 29/31] fix: don't continue a TMC message across a change
 between clear and encrypted service

---
 src/tmc/tmc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index f544785..4c07298 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -470,6 +470,10 @@ void TMCService::receiveSystemGroup(std::uint16_t message, nlohmann::ordered_jso
     is_initialized_ = true;
     const auto ltn  = getBits<6>(message, 6);
 
+    // A message can't continue from clear text to encrypted, or vice versa
+    if (is_encrypted_ != (ltn == 0))
+      message_ = Message(ltn == 0);
+
     is_encrypted_                                     = (ltn == 0);
     (*jsonroot)["tmc"]["system_info"]["is_encrypted"] = is_encrypted_;
 
-- 
2.43.0


From 9ec9b707f96d743b0819a87e2d88781015b630a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:18 +0000
Subject: [PATCH 30/31] fix: decode enhanced RadioText in UCS-2

The 16-bit characters are sent high byte first, and neither the blanking of
zero bytes nor the search for the terminator may look at single bytes.
---
 src/text/rdsstring.cc | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/text/rdsstring.cc b/src/text/rdsstring.cc
index 4317cb1..833d59f 100644
--- a/src/text/rdsstring.cc
+++ b/src/text/rdsstring.cc
@@ -60,7 +60,7 @@ std::string getRDSCharString(std::uint8_t code) {
 
 // \throws Conversion errors from iconvpp
 std::string decodeUCS2(const std::string& src) {
-  static iconvpp::converter converter("UTF-8", "UCS-2");
+  static iconvpp::converter converter("UTF-8", "UCS-2BE");
 
   std::string dst;
   converter.convert(src, dst);
@@ -83,7 +83,10 @@ void RDSString::set(std::size_t pos, std::uint8_t byte) {
   if (pos == 0 || (pos == prev_pos_ + 1 && sequential_length_ == pos))
     sequential_length_ = pos + 1;
 
-  if (isComplete()) {
+  // In UCS-2 a character is only there when both of its bytes are
+  const bool is_character_complete = (encoding_ != Encoding::UCS2 || pos % 2 == 1);
+
+  if (isComplete() && is_character_complete) {
     try {
       last_complete_string_ = str();
     } catch (std::exception&) {
@@ -109,6 +112,14 @@ std::size_t RDSString::getReceivedLength() const {
 
 // Length, in bytes, up to the first string terminator, or the full allocated length
 std::size_t RDSString::getExpectedLength() const {
+  if (encoding_ == Encoding::UCS2) {
+    for (std::size_t i = 0; i + 1 < data_.size(); i += 2) {
+      if (data_[i] == 0x00 && data_[i + 1] == kStringTerminator)
+        return i + 2;
+    }
+    return data_.size();
+  }
+
   const auto terminated_length =
       std::distance(data_.cbegin(),
                     std::find_if(data_.cbegin(), data_.cend(),
@@ -158,6 +169,18 @@ std::string RDSString::str() const {
 std::vector<std::uint8_t> RDSString::getData() const {
   const std::size_t len{getExpectedLength()};
   std::vector<std::uint8_t> result(len);
+
+  if (encoding_ == Encoding::UCS2) {
+    for (std::size_t i = 0; i + 1 < len; i += 2) {
+      const bool has_char = sequential_length_ > i + 1 &&
+                            (data_[i] != 0x00 || (data_[i + 1] != kStringTerminator &&
+                                                  data_[i + 1] != 0x00));
+      result[i]     = has_char ? data_[i] : 0x00;
+      result[i + 1] = has_char ? data_[i + 1] : kBlankSpace;
+    }
+    return result;
+  }
+
   for (std::size_t i = 0; i < len; i++) {
     result[i] = sequential_length_ > i && data_[i] != kStringTerminator && data_[i] != 0x00
                     ? data_[i]
-- 
2.43.0


From 63576e7fd258467781b28c2fb68e885b4af88229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:18 +0000
Subject: [PATCH 31/31] fix: echo text input unchanged with --feed-through

A line end was added when the input's last line had none, or after the last
line when it had one.
---
 src/io/input.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 46c7238..4103a57 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -196,8 +196,12 @@ Group readHexGroup(const Options& options) {
   while (!(group_complete || std::cin.eof())) {
     std::string line;
     std::getline(std::cin, line);
-    if (options.feed_thru)
-      std::cout << line << '\n';
+    if (options.feed_thru) {
+      std::cout << line;
+      // The last line may not have been terminated
+      if (!std::cin.eof())
+        std::cout << '\n';
+    }
 
     if (line.length() < 16)
       continue;
@@ -261,8 +265,12 @@ Group readTEFGroup(const Options& options) {
   while (!std::cin.eof()) {
     std::string line;
     std::getline(std::cin, line);
-    if (options.feed_thru)
-      std::cout << line << '\n';
+    if (options.feed_thru) {
+      std::cout << line;
+      // The last line may not have been terminated
+      if (!std::cin.eof())
+        std::cout << '\n';
+    }
 
     if (line.substr(0, 1) == "P") {
       // Lines starting with 'P' contain the PI code
-- 
2.43.0

