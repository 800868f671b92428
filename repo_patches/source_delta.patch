From 362565ce7388ec597c02448783d9c2f4c2df2482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 01/40] fix: construct DDR4 x4 interfaces without DBI pins
 instead of aborting on the DBI width assertion

---
 .../DRAMPower/standards/ddr4/DDR4Interface.cpp     | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index 6845467..1f4a231 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -12,6 +12,14 @@ namespace DRAMPower {
         DRAMUtils::Config::TogglingRateIdlePattern::H
     };
 
+    // x4 devices have no DBI pins
+    static std::optional<std::size_t> getDBIWidth(const MemSpecDDR4& memSpec) {
+        if (4 == memSpec.bitWidth) {
+            return std::nullopt;
+        }
+        return memSpec.numberOfDevices * memSpec.bitWidth;
+    }
+
     DDR4Interface::DDR4Interface(const MemSpecDDR4& memSpec, const config::SimConfig &simConfig)
         : m_memSpec(memSpec)
         , m_commandBus{cmdBusWidth, 1,
@@ -31,12 +39,12 @@ namespace DRAMPower {
         , m_readDQS(memSpec.dataRate, true)
         , m_writeDQS(memSpec.dataRate, true)
         , m_clock(2, false)
-        , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, memSpec.burstLength,
+        , m_dbi(getDBIWidth(memSpec), memSpec.burstLength,
             [this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
             this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
         }, false)
-        , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
-        , m_dbiwrite(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
+        , m_dbiread(m_dbi.getChunksPerWidth().value_or(0), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
+        , m_dbiwrite(m_dbi.getChunksPerWidth().value_or(0), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
         , prepostambleReadMinTccd(memSpec.prePostamble.readMinTccd)
         , prepostambleWriteMinTccd(memSpec.prePostamble.writeMinTccd)
         , m_ranks(memSpec.numberOfRanks)
-- 
2.43.0


From 4542fdc7440d632dd29d52eec525c05f69c7b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 02/40] fix: resume only the banks that are open when leaving
 active power-down

---
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp     | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
index 2d27b3f..fe70f9e 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
@@ -257,7 +257,7 @@ void DDR5Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timestam
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
index f55157b..9acf224 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
@@ -193,7 +193,7 @@ void LPDDR4Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
index ba15dc9..263740b 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
@@ -254,7 +254,7 @@ void LPDDR5Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
index 4b67fd8..e0aabda 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
@@ -248,7 +248,7 @@ void LPDDR6Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         rank.cycles.powerDownAct.close_interval(exitTime);
         rank.cycles.act.start_interval(exitTime);
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 bank.cycles.act.start_interval(exitTime);
             }
         }
-- 
2.43.0


From 8d5b506d92f77d37295e7c0ee6cc56d0851cc557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 03/40] fix: return DBI pins to idle at the end of the last
 burst instead of the start of the next one

---
 src/DRAMPower/DRAMPower/util/dbi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 0f0a24f..0641c28 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -429,7 +429,7 @@ private:
                     std::size_t chunk_idx = chunk % getChunksPerWidth().value(); // Pin index
                     if (lastInvert[chunk]) {
                         // Reset the inversion state
-                        m_changeCallback(timestamp, t, chunk_idx, false, read);
+                        m_changeCallback(t, t, chunk_idx, false, read);
                     }
                     // Reset the inversion state for next pin updates
                     lastInvert[chunk] = false;
@@ -441,7 +441,7 @@ private:
                 // Looping over all chunks of the lastBurst
                 for (std::size_t chunk = 0; chunk < m_lastBurst.chunks(); chunk++) {
                     if (lastInvert[chunk]) {
-                        m_changeCallback(timestamp, t, chunk, false, read);
+                        m_changeCallback(t, t, chunk, false, read);
                     }
                     // Reset the inversion state for next updates
                     lastInvert[chunk] = false;
-- 
2.43.0


From b5494e598f5cdf6e83259544c2a1851ce3e72bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 04/40] fix: size the DBI inversion state by its size, not its
 capacity

---
 src/DRAMPower/DRAMPower/util/dbi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 0641c28..6d2eb08 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -270,7 +270,7 @@ public:
         std::size_t n_chunks = n_bits / ChunkSize;
         
         // Resize lastInvert vector if needed
-        if (lastInvert.capacity() < n_chunks) {
+        if (lastInvert.size() < n_chunks) {
             lastInvert.resize(n_chunks, false);
         }
         
-- 
2.43.0


From 77b87f9c4574c6f7be6df4c3c527ebc0cbaeaee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 05/40] fix: evaluate a multi-byte DBI chunk at its last byte

---
 src/DRAMPower/DRAMPower/util/dbihelpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbihelpers.h b/src/DRAMPower/DRAMPower/util/dbihelpers.h
index 404ecb4..b01cfcb 100644
--- a/src/DRAMPower/DRAMPower/util/dbihelpers.h
+++ b/src/DRAMPower/DRAMPower/util/dbihelpers.h
@@ -119,7 +119,7 @@ public:
     }
 
     inline bool last() const {
-        return 0 == (m_current_data_idx % COUNT_DATA);
+        return COUNT_DATA - 1 == (m_current_data_idx % COUNT_DATA);
     }
 
     inline static constexpr std::size_t getDataTotal() {
-- 
2.43.0


From dacab01dffe0a624152d004a5ae5a1c835c4785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 06/40] fix: include DBI, metadata and enable state in the
 LPDDR4/5/6 interface checkpoints

---
 .../DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 14 ++++++++++++++
 .../DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 14 ++++++++++++++
 .../DRAMPower/standards/lpddr6/LPDDR6Interface.cpp | 10 ++++++++++
 src/DRAMPower/DRAMPower/util/dbi.h                 |  2 +-
 4 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index c2cace5..5350d75 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -274,6 +274,13 @@ void LPDDR4Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_writeDQS.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto &pin : m_dbiread) {
+        pin.serialize(stream);
+    }
+    for (const auto &pin : m_dbiwrite) {
+        pin.serialize(stream);
+    }
 }
 void LPDDR4Interface::deserialize(std::istream& stream) {
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
@@ -283,6 +290,13 @@ void LPDDR4Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_writeDQS.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto &pin : m_dbiread) {
+        pin.deserialize(stream);
+    }
+    for (auto &pin : m_dbiwrite) {
+        pin.deserialize(stream);
+    }
 }
 
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 05044bf..cf0f471 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -400,6 +400,13 @@ void LPDDR5Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_wck.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto &pin : m_dbiread) {
+        pin.serialize(stream);
+    }
+    for (const auto &pin : m_dbiwrite) {
+        pin.serialize(stream);
+    }
 }
 void LPDDR5Interface::deserialize(std::istream& stream) {
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
@@ -409,6 +416,13 @@ void LPDDR5Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_wck.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto &pin : m_dbiread) {
+        pin.deserialize(stream);
+    }
+    for (auto &pin : m_dbiwrite) {
+        pin.deserialize(stream);
+    }
 }
 
 } // namespace DRAMPower
\ No newline at end of file
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
index 77d7e90..b7d7d4e 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
@@ -378,6 +378,11 @@ void LPDDR6Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_wck.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto& metaData : m_formatter.m_metaData) {
+        stream.write(reinterpret_cast<const char*>(&metaData), sizeof(metaData));
+    }
+    stream.write(reinterpret_cast<const char*>(&m_enabled), sizeof(m_enabled));
 }
 
 void LPDDR6Interface::deserialize(std::istream& stream) {
@@ -388,6 +393,11 @@ void LPDDR6Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_wck.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto& metaData : m_formatter.m_metaData) {
+        stream.read(reinterpret_cast<char*>(&metaData), sizeof(metaData));
+    }
+    stream.read(reinterpret_cast<char*>(&m_enabled), sizeof(m_enabled));
 }
 
 std::tuple<const uint8_t*, std::size_t> LPDDR6Interface::DataFormatter::formatData(
diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 6d2eb08..8ee65d3 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -137,7 +137,7 @@ private:
             m_lastbeat.clear();
             m_lastbeat.reserve(m_lastbeatSize);
             for (std::size_t i = 0; i < m_lastbeatSize; ++i) {
-                bool entry;
+                DataType_t entry;
                 stream.read(reinterpret_cast<char*>(&entry), sizeof(entry));
                 m_lastbeat.push_back(entry);
             }
-- 
2.43.0


From f6b11c905d2bfe4b81e5233e81d3363aa3098fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 07/40] fix: honour the DQ termination setting for DDR5
 toggling-rate energy

---
 .../DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
index c6cd8d4..c231ed8 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
@@ -73,13 +73,13 @@ interface_energy_info_t InterfaceCalculation_DDR5::calcDQEnergyTogglingRate(cons
 
     // Read
     result.dram.staticEnergy +=
-        calcStaticTermination(impedances_.rdq_R_eq, stats.read, impedances_.rdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
+        calcStaticTermination(impedances_.rdq_termination, stats.read, impedances_.rdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
     result.dram.dynamicEnergy +=
         calc_dynamic_energy(stats.read.zeroes_to_ones, impedances_.rdq_dyn_E);
 
     // Write
     result.controller.staticEnergy +=
-        calcStaticTermination(impedances_.wdq_R_eq, stats.write, impedances_.wdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
+        calcStaticTermination(impedances_.wdq_termination, stats.write, impedances_.wdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
     result.controller.dynamicEnergy +=
         calc_dynamic_energy(stats.write.zeroes_to_ones, impedances_.wdq_dyn_E);
 
-- 
2.43.0


From 9345c6b1e76c1eda4f3ed034a65c96000ca9a39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 08/40] fix: register the DDR5 self-refresh exit command
 pattern

---
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
index 777c51b..a8953b7 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
@@ -97,6 +97,10 @@ void DDR5Interface::registerPatterns() {
     m_patternHandler.registerPattern<CmdType::SREFEN>({
         H, H, H, L, H, V, V, V, V, H, L, V, V, V
     });
+    // SREFEX
+    m_patternHandler.registerPattern<CmdType::SREFEX>({
+        H, H, H, H, H, V, V, V, V, V, V, V, V, V
+    });
     // PDEA
     m_patternHandler.registerPattern<CmdType::PDEA>({
         H, H, H, L, H, V, V, V, V, V, H, L, V, V
-- 
2.43.0


From ea02053253976f3faf96bf35fb5bf10aa92e1c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 09/40] fix: report per-rank command counters so DDR4
 pre/postamble energy is counted

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
index 9a45d31..fdaa69c 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
@@ -317,6 +317,10 @@ void DDR4Core::getWindowStats(timestamp_t timestamp, SimulationStats &stats) {
                                         rank.cycles.powerDownPre.get_count_at(timestamp) +
                                         rank.cycles.sref.get_count_at(timestamp));
         }
+        stats.rank_total[i].counter = {};
+        for (const auto &bank : rank.banks) {
+            stats.rank_total[i].counter += bank.counter;
+        }
         stats.rank_total[i].cycles.act = rank.cycles.act.get_count_at(timestamp);
         stats.rank_total[i].cycles.powerDownAct = rank.cycles.powerDownAct.get_count_at(timestamp);
         stats.rank_total[i].cycles.powerDownPre = rank.cycles.powerDownPre.get_count_at(timestamp);
-- 
2.43.0


From 660f5d05f57f40f57018a13a64cbf10e8e485dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 10/40] fix: accept LPDDR6 commands to banks other than the
 first of a bank group

---
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
index b7a9320..164c371 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
@@ -17,7 +17,6 @@ uint64_t LPDDR6Encoder::encode(const LPDDR6TargetCoordinate& targetCoordinate, c
         std::bitset<17> row_bits(targetCoordinate.row & 0x1FFFF);
         std::bitset<6> column_bits(targetCoordinate.column & 0x3F);
         std::bitset<2> bank_group_bits(targetCoordinate.bankGroup & 0x3);
-        assert((0 == targetCoordinate.dbank % extraData.numberOfBankGroups) && "Invalid bank configuration");
         auto dbankGroup = targetCoordinate.dbank / extraData.numberOfBankGroups;
         std::bitset<2> dbank_group_bits(dbankGroup & 0x3);
         bool sc_bit = (1 == targetCoordinate.subChannel);
-- 
2.43.0


From f81c73eee5deaab1ecdc9dc7bb39a232516532f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 11/40] fix: drive the LPDDR6 CA parity bit when parity mode is
 enabled

---
 .../standards/lpddr6/LPDDR6Pattern.cpp         | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
index 164c371..3ee4c51 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
@@ -3,7 +3,9 @@
 
 #include <DRAMUtils/memspec/standards/MemSpecLPDDR6.h>
 
+#include <algorithm>
 #include <bitset>
+#include <cstddef>
 
 
 namespace DRAMPower {
@@ -153,11 +155,23 @@ uint64_t LPDDR6Encoder::encode(const LPDDR6TargetCoordinate& targetCoordinate, c
         }
 
         // Parity
-        if (extraData.parity_check_mode && PAR == pattern[2]) {
+        if (extraData.parity_check_mode) {
             // When CA Parity is enabled, the Host 
             // generates an even bit parity based on the 1st and 2nd rising and falling edges of CA[3:0] 
             // signals, excluding the CA Parity bit
-            bitset[pattern.size() - 3] = (1 == bitset.count() % 2);
+            constexpr std::size_t commandBits = 16;
+            for (std::size_t start = 0; start < pattern.size(); start += commandBits) {
+                const std::size_t end = std::min(start + commandBits, pattern.size());
+                bool parity = false;
+                for (std::size_t i = start; i < end; ++i) {
+                    parity ^= bitset[pattern.size() - 1 - i];
+                }
+                for (std::size_t i = start; i < end; ++i) {
+                    if (PAR == pattern[i]) {
+                        bitset[pattern.size() - 1 - i] = parity;
+                    }
+                }
+            }
         }
 
         return bitset.to_ullong();
-- 
2.43.0


From 93fac0111fa7762b1eea312c9d572cbe2e427012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 12/40] fix: do not shift past the DBI and metadata words when
 formatting LPDDR6 bursts

---
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
index b7d7d4e..3a56159 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
@@ -452,8 +452,8 @@ std::tuple<const uint8_t*, std::size_t> LPDDR6Interface::DataFormatter::formatDa
 
             int mapping = dataBitsPerBurstNoMetaNoDBI * burst24 + dataBitMapping[dataBitIdx]; 
             bool dataBit = (inputData[mapping >> 3] >> (mapping & 7)) & 1;
-            bool metaBit = (m_metaData[burst24] >> bitOffset) & 1;
-            bool dbiBit = (dbival >> ((16 * burst24) + bitOffset)) & 1;
+            bool metaBit = isMeta && (m_metaData[burst24] >> bitOffset) & 1;
+            bool dbiBit = isDbi && (dbival >> ((16 * burst24) + bitOffset)) & 1;
 
             bool bitValue = (dbiBit && isDbi) || (metaBit && isMeta) || (dataBit && isData);
 
-- 
2.43.0


From 3446c8d4b1808f7d113d6d970eb9f0293f8bbb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 13/40] fix: parse the name that the end-of-simulation command
 is printed with

---
 src/DRAMPower/DRAMPower/command/CmdType.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/command/CmdType.h b/src/DRAMPower/DRAMPower/command/CmdType.h
index 67a4a07..2a1b764 100644
--- a/src/DRAMPower/DRAMPower/command/CmdType.h
+++ b/src/DRAMPower/DRAMPower/command/CmdType.h
@@ -102,7 +102,7 @@ namespace CmdTypeUtil
 			return CmdType::DSMEN;
 		if (str == "DSMEX")
 			return CmdType::DSMEX;
-		if (str == "END")
+		if (str == "END" || str == "END_OF_SIMULATION")
 			return CmdType::END_OF_SIMULATION;
 		return CmdType::NOP;
 	};
-- 
2.43.0


From 2f41ea6639005287897c9e99f397f711d2c58ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 14/40] fix: evaluate DBI pin statistics at the data rate of
 the data bus

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp     | 4 ++--
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 4 ++--
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index 1f4a231..fe92f97 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -372,10 +372,10 @@ namespace DRAMPower {
         stats.writeDQSStats = NumDQsPairs * 2u * m_writeDQS.get_stats_at(timestamp);
 
         for (const auto &dbi_pin : m_dbiread) {
-            stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+            stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
         }
         for (const auto &dbi_pin : m_dbiwrite) {
-            stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+            stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
         }
     }
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index 5350d75..bf4aea6 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -254,10 +254,10 @@ void LPDDR4Interface::getWindowStats(timestamp_t timestamp, SimulationStats &sta
     stats.writeDQSStats = 2 * m_writeDQS.get_stats_at(timestamp);
 
     for (const auto &dbi_pin : m_dbiread) {
-        stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
     for (const auto &dbi_pin : m_dbiwrite) {
-        stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
 
     if (m_memSpec.bitWidth == 16) {
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index cf0f471..78aee94 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -385,10 +385,10 @@ void LPDDR5Interface::getWindowStats(timestamp_t timestamp, SimulationStats &sta
     stats.readDQSStats = 2.0 * m_readDQS.get_stats_at(timestamp);
 
     for (const auto &dbi_pin : m_dbiread) {
-        stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
     for (const auto &dbi_pin : m_dbiwrite) {
-        stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
 }
 
-- 
2.43.0


From ee741a12221b19f44b2dd5c01a03a8fc8c145f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 15/40] fix: let devices with DBI pins be assigned

---
 src/DRAMPower/DRAMPower/util/pin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/pin.h b/src/DRAMPower/DRAMPower/util/pin.h
index 1a94e23..9679166 100644
--- a/src/DRAMPower/DRAMPower/util/pin.h
+++ b/src/DRAMPower/DRAMPower/util/pin.h
@@ -221,7 +221,7 @@ private:
     pin_stats_t m_stats;
 
     PinState m_last_state = PinState::Z;
-    const PinState m_idle_state = PinState::L;
+    PinState m_idle_state = PinState::L;
 
     bool m_init_load = true;
 
-- 
2.43.0


From 49cb40d7bf9a22c563439c242068d77cb572b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 16/40] fix: keep unused bits of the last block clear

set(), flip() and operator~ wrote the bits beyond the end of the last block, which equality and the population count then saw.
---
 src/DRAMPower/DRAMPower/util/dynamic_bitset.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/util/dynamic_bitset.h b/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
index cc0eb2b..1484d42 100644
--- a/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
+++ b/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
@@ -60,6 +60,12 @@ public:
             lastelementmask.set(i);
         }
     }
+    // Keep the unused bits of the last block zero
+    inline void clearUnusedBits() {
+        if (num_bits % blocksize != 0) {
+            buffer.back() &= lastelementmask;
+        }
+    }
     inline std::size_t size() const { return num_bits; };
     std::size_t count() const {
         std::size_t n = 0;
@@ -92,6 +98,7 @@ public: // element manipulation
         for (auto &element : buffer) {
             element.set();
         }
+        clearUnusedBits();
     }
     void reset() {
         for (auto &element : buffer) {
@@ -102,6 +109,7 @@ public: // element manipulation
         for (auto &element : buffer) {
             element.flip();
         }
+        clearUnusedBits();
     }
     void flip(std::size_t n) {
         buffer.at(n / blocksize).flip(n % blocksize);
@@ -162,6 +170,7 @@ public: // bitset operations
         for (std::size_t i = 0; i < this->buffer.size(); ++i) {
             bitset.buffer.at(i) = ~buffer.at(i);
         };
+        bitset.clearUnusedBits();
     
         return bitset;
     }
-- 
2.43.0


From 487fb3a026f3ef58e88c9a5b131aab4beaa922fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 17/40] fix: encode row bits 18 to 23

The descriptors R18 to R23 were encoded as zero, so that row bit 18 of an LPDDR4 activate never reached the command bus.
---
 src/DRAMPower/DRAMPower/command/Pattern.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/command/Pattern.cpp b/src/DRAMPower/DRAMPower/command/Pattern.cpp
index b89392e..65d5521 100644
--- a/src/DRAMPower/DRAMPower/command/Pattern.cpp
+++ b/src/DRAMPower/DRAMPower/command/Pattern.cpp
@@ -192,6 +192,24 @@ namespace DRAMPower {
             case R17:
                 bitset[n] = row_bits[17];
                 break;
+            case R18:
+                bitset[n] = row_bits[18];
+                break;
+            case R19:
+                bitset[n] = row_bits[19];
+                break;
+            case R20:
+                bitset[n] = row_bits[20];
+                break;
+            case R21:
+                bitset[n] = row_bits[21];
+                break;
+            case R22:
+                bitset[n] = row_bits[22];
+                break;
+            case R23:
+                bitset[n] = row_bits[23];
+                break;
 
                 default:
                 break;
-- 
2.43.0


From 4f839a3ddd4f3d949011286ec55ffaf24815c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 18/40] fix: dispatch hooks above bit 31

The shift that selects a hook was evaluated as an int.
---
 src/DRAMPower/DRAMPower/util/extension_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/extension_manager.h b/src/DRAMPower/DRAMPower/util/extension_manager.h
index 6f4eb42..f3731e7 100644
--- a/src/DRAMPower/DRAMPower/util/extension_manager.h
+++ b/src/DRAMPower/DRAMPower/util/extension_manager.h
@@ -179,7 +179,7 @@ private:
 
         const HookValue_t supportedHooks = static_cast<HookValue_t>(hookExt->getSupportedHooks());
         for (std::size_t i = 0; i < m_hookCache.size(); ++i) {
-            if ((supportedHooks & (1 << i)) != 0) {
+            if ((supportedHooks & (static_cast<HookValue_t>(1) << i)) != 0) {
                 m_hookCache[i].push_back(extension);
             }
         }
-- 
2.43.0


From f7187a725c0c6b8a8a72ff9d19a46312c28d50ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 19/40] fix: save the last command word

Overrides that repeat the last bit started from zero after a checkpoint was resumed.
---
 src/DRAMPower/DRAMPower/util/PatternHandler.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/util/PatternHandler.h b/src/DRAMPower/DRAMPower/util/PatternHandler.h
index a08cea0..cf6e48c 100644
--- a/src/DRAMPower/DRAMPower/util/PatternHandler.h
+++ b/src/DRAMPower/DRAMPower/util/PatternHandler.h
@@ -102,9 +102,11 @@ public:
 public:
     void serialize(std::ostream& stream) const override {
         m_encoder.serialize(stream);
+        stream.write(reinterpret_cast<const char*>(&m_lastPattern), sizeof(m_lastPattern));
     }
     void deserialize(std::istream& stream) override {
         m_encoder.deserialize(stream);
+        stream.read(reinterpret_cast<char*>(&m_lastPattern), sizeof(m_lastPattern));
     }
 
 // Private member variables
-- 
2.43.0


From c9e68c5f729088ae73eac7e646d2318b417eb51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 20/40] fix: switch an idle or unused bus off and on again

Statistics were counted twice after a bus was enabled again, and enabling at the time of disabling or at time zero aborted.
---
 src/DRAMPower/DRAMPower/util/bus.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/bus.h b/src/DRAMPower/DRAMPower/util/bus.h
index 14e1ec3..df13c71 100644
--- a/src/DRAMPower/DRAMPower/util/bus.h
+++ b/src/DRAMPower/DRAMPower/util/bus.h
@@ -91,6 +91,13 @@ private:
 
 	void advance_stats(timestamp_t virtual_timestamp, stats_t& stats) const {
 		// Advance counters to new timestamp
+		if (this->burst_storage.empty()) {
+			// No burst since the bus was enabled. The first idle slot is accounted for in the pending stats
+			if (virtual_timestamp > this->last_load) {
+				stats += (virtual_timestamp - this->last_load - 1) * idle_stats;
+			}
+			return;
+		}
 		timestamp_t burstStorageEndTime = this->burst_storage.endTime();
 		// Burst storage
 		timestamp_t lastburstEnd = std::min(burstStorageEndTime, virtual_timestamp);
@@ -119,7 +126,7 @@ private:
 		}
 		advance_stats(virtual_timestamp, stats);
 		// Pattern for pending stats (virtual_timestamp - 1, virtual_timestamp)
-		if(virtual_timestamp > 0)
+		if(virtual_timestamp > this->last_load)
 		{
 			this->last_pattern = this->at(virtual_timestamp - 1);
 		}
@@ -201,6 +208,7 @@ public:
 
 		add_previous_stats(this->virtual_disable_timestamp);
 		// Clear pending stats
+		this->pending_stats.clear();
 		this->burst_storage.clear();
 
 		this->last_load = this->virtual_disable_timestamp;
@@ -212,11 +220,12 @@ public:
 		if (this->enableflag) {
 			return;
 		}
-		assert(timestamp * datarate > this->virtual_disable_timestamp);
+		assert(timestamp * datarate >= this->virtual_disable_timestamp);
 		// Shift the counters to the enabled timestamp
 		this->last_load = timestamp * this->datarate;
 		// Add pending stats at enable timestamp
 		this->pending_stats.setPendingStats(this->last_load, idle_stats);
+		this->last_pattern = this->idle_pattern_burst;
 		this->enableflag = true;
 	}
 
-- 
2.43.0


From ffdf3c2088881cfec1202984eb8096aa5a5b5bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 21/40] fix: accept LPDDR5 specifications without bank groups

The 16B and 8B modes allow zero bank groups, but the number of banks was divided by it first.
---
 src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
index 5eb179a..883976a 100644
--- a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
+++ b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
@@ -8,7 +8,6 @@ MemSpecLPDDR5::MemSpecLPDDR5(const DRAMUtils::MemSpec::MemSpecLPDDR5 &memspec)
 {
     numberOfBankGroups      = memspec.memarchitecturespec.nbrOfBankGroups;
     numberOfRanks           = memspec.memarchitecturespec.nbrOfRanks;
-    banksPerGroup           = numberOfBanks / numberOfBankGroups;
 
     memTimingSpec.tCK       = memspec.memtimingspec.tCK;
     memTimingSpec.WCKtoCK   = memspec.memtimingspec.WCK2CK;
@@ -114,6 +113,9 @@ MemSpecLPDDR5::MemSpecLPDDR5(const DRAMUtils::MemSpec::MemSpecLPDDR5 &memspec)
         BankArchError();
     }
 
+    // The 16B and 8B modes have no bank groups (0 or 1 in the specification)
+    banksPerGroup = numberOfBanks / std::max<uint64_t>(numberOfBankGroups, 1);
+
     // Source: LPDDR5 standard; table 312
     memTimingSpec.tBurst = burstLength/(dataRate * memTimingSpec.WCKtoCK);
 
-- 
2.43.0


From dbe7288905fc66959c88692f678fdf8ee0aabee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:49 +0000
Subject: [PATCH 22/40] fix: report one inversion per chunk without a previous
 beat

---
 src/DRAMPower/DRAMPower/util/dbialgos.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbialgos.h b/src/DRAMPower/DRAMPower/util/dbialgos.h
index a3b5482..aa599c4 100644
--- a/src/DRAMPower/DRAMPower/util/dbialgos.h
+++ b/src/DRAMPower/DRAMPower/util/dbialgos.h
@@ -73,8 +73,10 @@ struct DynamicDBI {
         if (!previous) {
             // No previous burst -> cannot compute transitions
             for (; cur_it != cur_end; ++cur_it) {
-                std::forward<InvertCallbackFunctor>(invert_callback)(
-                    false, cur_it.getTotalChunkIdx());
+                if (cur_it.last()) {
+                    std::forward<InvertCallbackFunctor>(invert_callback)(
+                        false, cur_it.getTotalChunkIdx());
+                }
             }
         } else {
             auto [prev_it, prev_end] = *previous;
-- 
2.43.0


From 99bd10874acf2cf16010e7bbaa723d19caca114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:49 +0000
Subject: [PATCH 23/40] fix: compare with the previous beat of single-beat
 bursts

---
 src/DRAMPower/DRAMPower/util/dbi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 8ee65d3..f80a7e0 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -352,7 +352,7 @@ public:
 private:
     void saveLastBurst(timestamp_t timestamp, LastBurst_t& m_lastBurst) {
         if (m_lastBurst.m_init && m_lastBurst.end() == timestamp && m_width.has_value() // seamless burst and busWidth provided
-            && m_lastBurst.beats() != 0 && m_invertedData.size() > m_width.value() / DATATYPEDIGITS) // at least one beat is required
+            && m_lastBurst.beats() != 0 && m_invertedData.size() >= m_width.value() / DATATYPEDIGITS) // at least one beat is required
         {
             assert(0 <= (m_invertedData.size() - (m_width.value() / DATATYPEDIGITS)) && "Invalid m_invertedData size");
             m_lastBurst.m_lastbeat.clear();
@@ -364,7 +364,7 @@ private:
 
     AlgorithmPreviousOptional_t createPreviousIterator(timestamp_t timestamp, LastBurst_t& m_lastBurst) {
         if (m_lastBurst.m_init && m_lastBurst.end() == timestamp && m_width.has_value() // seamless burst and busWidth provided
-            && m_lastBurst.beats() != 0 && m_invertedData.size() > m_width.value() / DATATYPEDIGITS) // at least one beat is required
+            && m_lastBurst.beats() != 0 && m_invertedData.size() >= m_width.value() / DATATYPEDIGITS) // at least one beat is required
         {
             assert(0 <= (m_invertedData.size() - (m_width.value() / DATATYPEDIGITS)) && "Invalid m_invertedData size");
             // Create concat iterator of lastburst and current burst
-- 
2.43.0


From 738f53e349d117c0995970bf4d355cd0522eac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:49 +0000
Subject: [PATCH 24/40] fix: restore inverted data of any word type

---
 src/DRAMPower/DRAMPower/util/dbi.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index f80a7e0..05d391d 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -341,9 +341,9 @@ public:
         m_invertedData.clear();
         m_invertedData.reserve(invertedDataSize);
         for (std::size_t i = 0; i < invertedDataSize; ++i) {
-            uint8_t byte;
-            stream.read(reinterpret_cast<char*>(&byte), sizeof(byte));
-            m_invertedData.push_back(byte);
+            DataType_t entry;
+            stream.read(reinterpret_cast<char*>(&entry), sizeof(entry));
+            m_invertedData.push_back(entry);
         }
     }
 
-- 
2.43.0


From 4c994b987549f02d9e80c25e428ce4f3f73ad5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 25/40] fix: reject payloads with characters that are no
 hexadecimal digits

---
 src/cli/lib/DRAMPower/cli/util.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli/lib/DRAMPower/cli/util.cpp b/src/cli/lib/DRAMPower/cli/util.cpp
index 290b477..5028885 100644
--- a/src/cli/lib/DRAMPower/cli/util.cpp
+++ b/src/cli/lib/DRAMPower/cli/util.cpp
@@ -25,6 +25,12 @@ std::unique_ptr<uint8_t[]> util::hexStringToUint8Array(const csv::string_view da
 		hexString = data;
 	}
 	
+	// Only hexadecimal digits are allowed
+	if (hexString.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
+	{
+		throw std::invalid_argument("Invalid hex string");
+	}
+
 	// Allocate memory for the array and fill it
 	auto content = std::make_unique<uint8_t[]>(size);
 	for (size_t i = 0; i < size; i++)
-- 
2.43.0


From e050aec90dcb37b49f22dd23ceed7357258e33fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 26/40] fix: print the dual-bank refresh energy

---
 src/cli/lib/DRAMPower/cli/util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cli/lib/DRAMPower/cli/util.hpp b/src/cli/lib/DRAMPower/cli/util.hpp
index 96e56f7..b622a7f 100644
--- a/src/cli/lib/DRAMPower/cli/util.hpp
+++ b/src/cli/lib/DRAMPower/cli/util.hpp
@@ -81,7 +81,8 @@ template <> struct fmt::formatter<DRAMPower::energy_info_t>
                               "REF_AB: {} "
                               "REF_PB: {} "
                               "REF_SB: {} "
-                              "REF_2B: {}",
+                              "REF_2B: {} "
+                              "REF_DB: {}",
                               ei.E_act,
                               ei.E_pre,
                               ei.E_bg_act,
@@ -95,7 +96,8 @@ template <> struct fmt::formatter<DRAMPower::energy_info_t>
                               ei.E_ref_AB,
                               ei.E_ref_PB,
                               ei.E_ref_SB,
-                              ei.E_ref_2B);
+                              ei.E_ref_2B,
+                              ei.E_ref_DB);
     }
 };
 
-- 
2.43.0


From 73ad6ed98d65b31fe87a122288c17c13f04e89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 27/40] fix: resolve relative symlink targets in the directory
 of the symlink

---
 src/cli/main/validators.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/main/validators.cpp b/src/cli/main/validators.cpp
index 9ad3bb4..eb76e3b 100644
--- a/src/cli/main/validators.cpp
+++ b/src/cli/main/validators.cpp
@@ -28,7 +28,8 @@ std::optional<ResolveSymlinkResult> resolve_symlink(const std::string &filepath,
     // The path exists and is a symlink -> resolve the symlink chain
     std::filesystem::path resolved = filepath;
     for (uint_fast8_t iter = 0; iter < max_iter; ++iter) {
-        resolved = std::filesystem::read_symlink(resolved);
+        // A relative target is relative to the directory of the symlink
+        resolved = resolved.parent_path() / std::filesystem::read_symlink(resolved);
         // Check if the provided path exists
         if (!std::filesystem::exists(resolved)) {
             // symlink resolved to a non-existing path
-- 
2.43.0


From 6266070fd7260656b837a258dbd0f7b742058640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 28/40] fix: reject traces with columns that are no numbers

---
 src/cli/lib/DRAMPower/cli/run.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/cli/lib/DRAMPower/cli/run.cpp b/src/cli/lib/DRAMPower/cli/run.cpp
index 47253fb..8dc6852 100644
--- a/src/cli/lib/DRAMPower/cli/run.cpp
+++ b/src/cli/lib/DRAMPower/cli/run.cpp
@@ -125,13 +125,20 @@ bool parse_command_list(std::string_view csv_file, std::vector<std::pair<Command
             return false;
 		}
 			
-		timestamp = row[rowidx++].get<timestamp_t>();
-		cmdType = row[rowidx++].get_sv();
-		rank_id = row[rowidx++].get<std::size_t>();
-		bank_group_id = row[rowidx++].get<std::size_t>();
-		bank_id = row[rowidx++].get<std::size_t>();
-		row_id = row[rowidx++].get<std::size_t>();
-		column_id = row[rowidx++].get<std::size_t>();
+		try
+		{
+			timestamp = row[rowidx++].get<timestamp_t>();
+			cmdType = row[rowidx++].get_sv();
+			rank_id = row[rowidx++].get<std::size_t>();
+			bank_group_id = row[rowidx++].get<std::size_t>();
+			bank_id = row[rowidx++].get<std::size_t>();
+			row_id = row[rowidx++].get<std::size_t>();
+			column_id = row[rowidx++].get<std::size_t>();
+		}
+		catch (const std::exception&)
+		{
+			return false; // not a number
+		}
 
 		// Get command
 		cmd = DRAMPower::CmdTypeUtil::from_string(cmdType);
-- 
2.43.0


From 6d36a707c56c0ad2dc088e1cd2b0c3936abb613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 29/40] fix: report symlink loops instead of aborting

---
 src/cli/main/validators.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli/main/validators.cpp b/src/cli/main/validators.cpp
index eb76e3b..a07ffd0 100644
--- a/src/cli/main/validators.cpp
+++ b/src/cli/main/validators.cpp
@@ -4,6 +4,7 @@
 #include <filesystem>
 #include <fstream>
 #include <optional>
+#include <system_error>
 
 namespace validators {
 
@@ -30,6 +31,11 @@ std::optional<ResolveSymlinkResult> resolve_symlink(const std::string &filepath,
     for (uint_fast8_t iter = 0; iter < max_iter; ++iter) {
         // A relative target is relative to the directory of the symlink
         resolved = resolved.parent_path() / std::filesystem::read_symlink(resolved);
+        std::error_code error;
+        if (!std::filesystem::status_known(std::filesystem::status(resolved, error))) {
+            // symlink cannot be followed (e.g. a symlink loop)
+            return std::nullopt;
+        }
         // Check if the provided path exists
         if (!std::filesystem::exists(resolved)) {
             // symlink resolved to a non-existing path
-- 
2.43.0


From d3a8e1489482bc25ce315fd674cd398d77dcfcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 30/40] fix: refuse output paths that cannot exist instead of
 aborting

---
 src/cli/main/validators.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cli/main/validators.cpp b/src/cli/main/validators.cpp
index a07ffd0..e6bed23 100644
--- a/src/cli/main/validators.cpp
+++ b/src/cli/main/validators.cpp
@@ -115,6 +115,11 @@ EnsureFileExists_t::EnsureFileExists_t() {
     name_ = "EnsureFileExists";
     non_modifying_ = false; // The validator modifies the input for a symlink
     func_ = [](std::string &filepath) {
+        std::error_code error;
+        if (!std::filesystem::status_known(std::filesystem::symlink_status(filepath, error))) {
+            // e.g. the name is too long or a parent directory cannot be followed
+            return std::string{"Invalid path"};
+        }
 // Check if file exists
         if (std::filesystem::is_symlink(filepath)) {
 // resolve symlink chain for at most MAX_SYMLINK_RESOLVE_ITERATIONS iterations
-- 
2.43.0


From 9e6e8658d81d22b315b8cef25df2c706aa33db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 31/40] fix: index based handlers check the rank and bank of a
 command in release builds

---
 src/DRAMPower/DRAMPower/util/RegisterHelper.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/util/RegisterHelper.h b/src/DRAMPower/DRAMPower/util/RegisterHelper.h
index e5c2d35..ce1e324 100644
--- a/src/DRAMPower/DRAMPower/util/RegisterHelper.h
+++ b/src/DRAMPower/DRAMPower/util/RegisterHelper.h
@@ -24,6 +24,7 @@ namespace coreHelpers {
     decltype(auto) bankHandlerIdx(const Command_t& cmd, std::vector<Rank>& ranks, Owner owner, Func &&member_func) {
         assert(ranks.size()>cmd.targetCoordinate.rank);
         assert(ranks.at(cmd.targetCoordinate.rank).banks.size()>cmd.targetCoordinate.bank);
+        static_cast<void>(ranks.at(cmd.targetCoordinate.rank).banks.at(cmd.targetCoordinate.bank));
 
         return (owner->*member_func)(cmd.targetCoordinate.rank, cmd.targetCoordinate.bank, cmd.timestamp);
     }
@@ -39,6 +40,8 @@ namespace coreHelpers {
     template<typename Func, typename Owner, typename Command_t = Command>
     decltype(auto) rankHandlerIdx(const Command_t& cmd, std::vector<Rank>& ranks, Owner owner, Func &&member_func) {
         assert(ranks.size()>cmd.targetCoordinate.rank);
+        static_cast<void>(ranks.at(cmd.targetCoordinate.rank));
+
         return (owner->*member_func)(cmd.targetCoordinate.rank, cmd.timestamp);
     }
 
-- 
2.43.0


From aa4f237bc70b49f77c95f82aafadc7c1a59159a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 32/40] fix: LPDDR6 refuses a payload that is neither one nor
 two bursts in release builds

---
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
index 3a56159..b7c085e 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
@@ -5,6 +5,7 @@
 #include "DRAMPower/util/databus_types.h"
 #include <algorithm>
 #include <functional>
+#include <stdexcept>
 #include <tuple>
 
 namespace DRAMPower {
@@ -408,6 +409,9 @@ std::tuple<const uint8_t*, std::size_t> LPDDR6Interface::DataFormatter::formatDa
             || (2 * (dataBitsPerBurst - additionalDataPerBurst)) == n_bits)
             && "Invalid burst");
     std::size_t nbursts = (2 * (dataBitsPerBurst - additionalDataPerBurst) == n_bits) ? 2 : 1;
+    if (nbursts * (dataBitsPerBurst - additionalDataPerBurst) != n_bits) {
+        throw std::invalid_argument("Invalid burst");
+    }
     
     // Toggling rate
     if (nullptr == inputData) {
-- 
2.43.0


From 9013cb43f84ba97b4f0c03526237300bc08788b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:34 +0000
Subject: [PATCH 33/40] fix: let a copied or moved device drive its own data
 bus inversion pins

---
 .../DRAMPower/standards/ddr4/DDR4Interface.cpp      | 13 ++++++++++---
 .../DRAMPower/standards/ddr4/DDR4Interface.h        |  1 +
 .../DRAMPower/standards/lpddr4/LPDDR4Interface.cpp  | 13 ++++++++++---
 .../DRAMPower/standards/lpddr4/LPDDR4Interface.h    |  1 +
 .../DRAMPower/standards/lpddr5/LPDDR5Interface.cpp  | 13 ++++++++++---
 .../DRAMPower/standards/lpddr5/LPDDR5Interface.h    |  1 +
 6 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index fe92f97..7965532 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -40,9 +40,7 @@ namespace DRAMPower {
         , m_writeDQS(memSpec.dataRate, true)
         , m_clock(2, false)
         , m_dbi(getDBIWidth(memSpec), memSpec.burstLength,
-            [this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
-            this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
-        }, false)
+            nullptr, false)
         , m_dbiread(m_dbi.getChunksPerWidth().value_or(0), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
         , m_dbiwrite(m_dbi.getChunksPerWidth().value_or(0), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
         , prepostambleReadMinTccd(memSpec.prePostamble.readMinTccd)
@@ -193,12 +191,20 @@ namespace DRAMPower {
         }
     }
 
+    void DDR4Interface::bindDBIPins() {
+        // Bound before every use: a copied or moved interface drives its own pins
+        m_dbi.setChangeCallback([this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
+            this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
+        });
+    }
+
     std::optional<const uint8_t *> DDR4Interface::handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read) {
         if (0 == n_bits || !data || !m_dbi.isEnabled()) {
             // No DBI or no data to process
             return std::nullopt;
         }
         timestamp_t virtual_time = timestamp * m_memSpec.dataRate;
+        bindDBIPins();
         // updateDBI calls the given callback to handle pin changes
         return m_dbi.updateDBI(virtual_time, n_bits, data, read);
     }
@@ -335,6 +341,7 @@ namespace DRAMPower {
     }
 
     void DDR4Interface::endOfSimulation(timestamp_t timestamp) {
+        bindDBIPins();
         m_dbi.dispatchResetCallback(timestamp);
     }
 
diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h
index 07366b0..41957a9 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h
@@ -75,6 +75,7 @@ public:
 // Private member functions
 private:
     void registerPatterns();
+    void bindDBIPins();
     std::optional<const uint8_t *> handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read);
     void handleDBIPinChange(const timestamp_t load_timestamp, std::size_t pin, bool state, bool read);
     void handleOverrides(size_t length, bool read);
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index bf4aea6..5a59b1a 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -32,9 +32,7 @@ LPDDR4Interface::LPDDR4Interface(const MemSpecLPDDR4& memSpec, const config::Sim
     , m_readDQS(memSpec.dataRate, true)
     , m_writeDQS(memSpec.dataRate, true)
     , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength,
-        [this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
-        this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
-    }, false)
+        nullptr, false)
     , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
     , m_dbiwrite(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
     , m_patternHandler(PatternEncoderOverrides{
@@ -161,12 +159,20 @@ void LPDDR4Interface::handleDBIPinChange(const timestamp_t load_timestamp, std::
     }
 }
 
+void LPDDR4Interface::bindDBIPins() {
+    // Bound before every use: a copied or moved interface drives its own pins
+    m_dbi.setChangeCallback([this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
+        this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
+    });
+}
+
 std::optional<const uint8_t *> LPDDR4Interface::handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read) {
     if (0 == n_bits || !data || !m_dbi.isEnabled()) {
         // No DBI or no data to process
         return std::nullopt;
     }
     timestamp_t virtual_time = timestamp * m_memSpec.dataRate;
+    bindDBIPins();
     // updateDBI calls the given callback to handle pin changes
     return m_dbi.updateDBI(virtual_time, n_bits, data, read);
 }
@@ -236,6 +242,7 @@ void LPDDR4Interface::handleData(const Command &cmd, bool read) {
 }
 
 void LPDDR4Interface::endOfSimulation(timestamp_t timestamp) {
+    bindDBIPins();
     m_dbi.dispatchResetCallback(timestamp);
 }
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h
index f8aee8e..d87a01a 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h
@@ -71,6 +71,7 @@ public:
 // Private Member functions
 private:
     void registerPatterns();
+    void bindDBIPins();
     std::optional<const uint8_t *> handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read);
     void handleDBIPinChange(const timestamp_t load_timestamp, std::size_t pin, bool state, bool read);
     void handleOverrides(size_t length, bool read);
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 78aee94..1693431 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -31,9 +31,7 @@ LPDDR5Interface::LPDDR5Interface(const MemSpecLPDDR5& memSpec, const config::Sim
     , m_readDQS(memSpec.dataRate, true)
     , m_wck(memSpec.dataRate / memSpec.memTimingSpec.WCKtoCK, !memSpec.wckAlwaysOnMode)
     , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength,
-        [this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
-        this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
-    }, false)
+        nullptr, false)
     , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
     , m_dbiwrite(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
     , m_patternHandler(PatternEncoderOverrides{}) // No overrides
@@ -293,12 +291,20 @@ void LPDDR5Interface::handleDBIPinChange(const timestamp_t load_timestamp, std::
     }
 }
 
+void LPDDR5Interface::bindDBIPins() {
+    // Bound before every use: a copied or moved interface drives its own pins
+    m_dbi.setChangeCallback([this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
+        this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
+    });
+}
+
 std::optional<const uint8_t *> LPDDR5Interface::handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read) {
     if (0 == n_bits || !data || !m_dbi.isEnabled()) {
         // No DBI or no data to process
         return std::nullopt;
     }
     timestamp_t virtual_time = timestamp * m_memSpec.dataRate;
+    bindDBIPins();
     // updateDBI calls the given callback to handle pin changes
     return m_dbi.updateDBI(virtual_time, n_bits, data, read);
 }
@@ -367,6 +373,7 @@ void LPDDR5Interface::handleData(const Command &cmd, bool read) {
 }
 
 void LPDDR5Interface::endOfSimulation(timestamp_t timestamp) {
+    bindDBIPins();
     m_dbi.dispatchResetCallback(timestamp);
 }
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h
index d1c5ebd..f611a50 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h
@@ -75,6 +75,7 @@ public:
 // Public member functions
 private:
     void registerPatterns();
+    void bindDBIPins();
     std::optional<const uint8_t *> handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read);
     void handleDBIPinChange(const timestamp_t load_timestamp, std::size_t pin, bool state, bool read);
     void handleOverrides(size_t length, bool read);
-- 
2.43.0


From c72cab2d20819b0e9ac4d4804ca4bca84014827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:43 +0000
Subject: [PATCH 34/40] fix: apply the data rate of a pin load once

---
 src/DRAMPower/DRAMPower/util/pin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/pin.h b/src/DRAMPower/DRAMPower/util/pin.h
index 9679166..1005268 100644
--- a/src/DRAMPower/DRAMPower/util/pin.h
+++ b/src/DRAMPower/DRAMPower/util/pin.h
@@ -143,7 +143,7 @@ public:
         timestamp_t virtual_load_time  = load_time * dataRate;
 
         // Count stats to virtual_load_time
-        set_internal(virtual_load_time, dataRate, m_pending_stats, m_stats);
+        set_internal(load_time, dataRate, m_pending_stats, m_stats);
         if (m_pending_stats.isPending() && m_pending_stats.getTimestamp() < virtual_load_time) {
             m_pending_stats.clear();
         }
-- 
2.43.0


From af807ff9f24d34d158fc185c58b267da9b55f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:53 +0000
Subject: [PATCH 35/40] fix: discard deferred commands of the device a
 checkpoint is restored into

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp    |  2 ++
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp    |  2 ++
 .../DRAMPower/standards/lpddr4/LPDDR4Core.cpp          |  2 ++
 .../DRAMPower/standards/lpddr5/LPDDR5Core.cpp          |  2 ++
 .../DRAMPower/standards/lpddr6/LPDDR6Core.cpp          |  2 ++
 src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h  | 10 ++++++++++
 6 files changed, 20 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
index fdaa69c..95fe297 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
@@ -345,6 +345,8 @@ void DDR4Core::serialize(std::ostream& stream) const {
 }
 
 void DDR4Core::deserialize(std::istream& stream) {
+    // A checkpoint has no pending implicit commands
+    m_implicitCommandHandler.clear();
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
     // Deserialize the ranks
     for (auto &rank : m_ranks) {
diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
index fe70f9e..c43cad6 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
@@ -360,6 +360,8 @@ void DDR5Core::serialize(std::ostream& stream) const {
 }
 
 void DDR5Core::deserialize(std::istream& stream) {
+    // A checkpoint has no pending implicit commands
+    m_implicitCommandHandler.clear();
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
     for (auto& rank : m_ranks) {
         rank.deserialize(stream);
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
index 9acf224..979d893 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
@@ -338,6 +338,8 @@ void LPDDR4Core::serialize(std::ostream& stream) const {
 }
 
 void LPDDR4Core::deserialize(std::istream& stream) {
+    // A checkpoint has no pending implicit commands
+    m_implicitCommandHandler.clear();
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
     for (auto& rank : m_ranks) {
         rank.deserialize(stream);
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
index 263740b..97242c7 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
@@ -374,6 +374,8 @@ void LPDDR5Core::serialize(std::ostream& stream) const {
     }
 }
 void LPDDR5Core::deserialize(std::istream& stream) {
+    // A checkpoint has no pending implicit commands
+    m_implicitCommandHandler.clear();
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
     for (auto& rank : m_ranks) {
         rank.deserialize(stream);
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
index e0aabda..f550b94 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
@@ -349,6 +349,8 @@ void LPDDR6Core::serialize(std::ostream& stream) const {
     }
 }
 void LPDDR6Core::deserialize(std::istream& stream) {
+    // A checkpoint has no pending implicit commands
+    m_implicitCommandHandler.clear();
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
     for (auto& rank : m_ranks) {
         rank.deserialize(stream);
diff --git a/src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h b/src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h
index 8a2946d..5d8ea71 100644
--- a/src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h
+++ b/src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h
@@ -62,6 +62,11 @@ public:
         return m_implicitCommandList.size();
     }
 
+    // Discard all pending implicit commands
+    void clear() {
+        m_implicitCommandList.clear();
+    }
+
 // Private member variables
 private:
     implicitCommandList_t m_implicitCommandList;
@@ -97,6 +102,11 @@ public:
         return m_implicitCommandList.size();
     }
 
+    // Discard all pending implicit commands
+    void clear() {
+        m_implicitCommandList.clear();
+    }
+
 // Private member variables
 private:
     implicitCommandList_t m_implicitCommandList;
-- 
2.43.0


From 613258b256d9b213a8ceed182e0ab434dd8d5d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:53 +0000
Subject: [PATCH 36/40] fix: do not use values that could not be read from a
 checkpoint

---
 src/DRAMPower/DRAMPower/command/Pattern.h |  4 ++--
 src/DRAMPower/DRAMPower/util/dbi.h        | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/command/Pattern.h b/src/DRAMPower/DRAMPower/command/Pattern.h
index fdd2990..c00b992 100644
--- a/src/DRAMPower/DRAMPower/command/Pattern.h
+++ b/src/DRAMPower/DRAMPower/command/Pattern.h
@@ -171,8 +171,8 @@ public:
         stream.read(reinterpret_cast<char*>(&settingsSize), sizeof(settingsSize));
         settings = BasePatternEncoderOverrides<pattern_t>{};
         for (std::size_t i = 0; i < settingsSize; ++i) {
-            pattern_t descriptor;
-            PatternEncoderBitSpec bitSpec;
+            pattern_t descriptor{};
+            PatternEncoderBitSpec bitSpec{};
             stream.read(reinterpret_cast<char*>(&descriptor), sizeof(descriptor));
             stream.read(reinterpret_cast<char*>(&bitSpec), sizeof(bitSpec));
             settings.updateSettings({PatternEncoderSettingsEntry<pattern_t>{descriptor, bitSpec}});
diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 05d391d..ad557b1 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -123,21 +123,21 @@ private:
             stream.read(reinterpret_cast<char*>(&m_n_chunks), sizeof(m_n_chunks));
             stream.read(reinterpret_cast<char*>(&m_n_bits), sizeof(m_n_bits));
             stream.read(reinterpret_cast<char*>(&m_init), sizeof(m_init));
-            std::size_t m_inversionsSize;
+            std::size_t m_inversionsSize = 0;
             stream.read(reinterpret_cast<char*>(&m_inversionsSize), sizeof(m_inversionsSize));
             m_inversions.clear();
             m_inversions.reserve(m_inversionsSize);
             for (std::size_t i = 0; i < m_inversionsSize; ++i) {
-                bool entry;
+                bool entry = false;
                 stream.read(reinterpret_cast<char*>(&entry), sizeof(entry));
                 m_inversions.push_back(entry);
             }
-            std::size_t m_lastbeatSize;
+            std::size_t m_lastbeatSize = 0;
             stream.read(reinterpret_cast<char*>(&m_lastbeatSize), sizeof(m_lastbeatSize));
             m_lastbeat.clear();
             m_lastbeat.reserve(m_lastbeatSize);
             for (std::size_t i = 0; i < m_lastbeatSize; ++i) {
-                DataType_t entry;
+                DataType_t entry{};
                 stream.read(reinterpret_cast<char*>(&entry), sizeof(entry));
                 m_lastbeat.push_back(entry);
             }
@@ -336,12 +336,12 @@ public:
         m_lastBurst_read.deserialize(stream);
         m_lastBurst_write.deserialize(stream);
 
-        std::size_t invertedDataSize;
+        std::size_t invertedDataSize = 0;
         stream.read(reinterpret_cast<char*>(&invertedDataSize), sizeof(invertedDataSize));
         m_invertedData.clear();
         m_invertedData.reserve(invertedDataSize);
         for (std::size_t i = 0; i < invertedDataSize; ++i) {
-            DataType_t entry;
+            DataType_t entry{};
             stream.read(reinterpret_cast<char*>(&entry), sizeof(entry));
             m_invertedData.push_back(entry);
         }
-- 
2.43.0


From 7e6c77caf7271eb9dd296f3a8e9a70f99e867a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:57 +0000
Subject: [PATCH 37/40] fix: report results that could not be written
 completely

---
 src/cli/lib/DRAMPower/cli/run.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/lib/DRAMPower/cli/run.cpp b/src/cli/lib/DRAMPower/cli/run.cpp
index 8dc6852..d85151d 100644
--- a/src/cli/lib/DRAMPower/cli/run.cpp
+++ b/src/cli/lib/DRAMPower/cli/run.cpp
@@ -214,7 +214,8 @@ bool jsonFileResult(const std::string &jsonfile, const std::unique_ptr<dram_base
 	
 	out << j.dump(4) << std::endl;
 	out.close();
-	return true;
+	// The result could not be written completely, e.g. no space left on the device
+	return out.good();
 }
 
 bool stdoutResult(const std::unique_ptr<dram_base<CmdType>> &ddr, const energy_t &core_energy, const interface_energy_info_t &interface_energy)
-- 
2.43.0


From 69c5a19a419944ce83f05972a24b33376db14a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:01 +0000
Subject: [PATCH 38/40] fix: let an extension that is registered again replace
 the previous one

---
 .../DRAMPower/util/extension_manager.h        | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/extension_manager.h b/src/DRAMPower/DRAMPower/util/extension_manager.h
index f3731e7..d37c2b1 100644
--- a/src/DRAMPower/DRAMPower/util/extension_manager.h
+++ b/src/DRAMPower/DRAMPower/util/extension_manager.h
@@ -2,6 +2,7 @@
 #define DRAMPOWER_UTIL_EXTENSION_MANAGER
 
 #include "DRAMPower/util/Serialize.h"
+#include <algorithm>
 #include <cstddef>
 #include <unordered_map>
 #include <typeindex>
@@ -54,6 +55,18 @@ private:
     static_assert(std::is_base_of_v<util::Serialize, BaseExtension>, "BaseExtension must derive from util::Serialize");
     static_assert(std::is_base_of_v<util::Deserialize, BaseExtension>, "BaseExtension must derive from util::Deserialize");
 
+// Private member functions
+    // The extension of a type that is registered again takes the place of the previous one
+    void unregisterExtension(const std::type_index& typeIndex) {
+        auto it = m_extensions.find(typeIndex);
+        if (it == m_extensions.end()) {
+            return;
+        }
+        m_serStorage.erase(std::remove_if(m_serStorage.begin(), m_serStorage.end(),
+            [&it](const auto& wp) { return wp.lock() == it->second; }), m_serStorage.end());
+        m_extensions.erase(it);
+    }
+
 protected:
 // Protected member functions
     template <typename T, typename... Args>
@@ -63,6 +76,7 @@ protected:
 
         auto ext = std::make_shared<T>(std::forward<Args>(args)...);
         auto typeIndex = std::type_index(typeid(T));
+        unregisterExtension(typeIndex);
         m_extensions[typeIndex] = ext;
         m_serStorage.emplace_back(ext);
         return ext;
@@ -195,7 +209,15 @@ public:
     // Register an extension, forwarding any additional arguments.
     template <typename T, typename... Args>
     void registerExtension(Args&&... args) {
-        updateHookCache(this->template registerExtension_impl<T>(std::forward<Args>(args)...));
+        auto previous = this->template getExtension<T>().lock();
+        auto extension = this->template registerExtension_impl<T>(std::forward<Args>(args)...);
+        // An extension that is registered again is not called in addition to its successor
+        if (previous) {
+            for (auto& extensions : m_hookCache) {
+                extensions.erase(std::remove(extensions.begin(), extensions.end(), previous), extensions.end());
+            }
+        }
+        updateHookCache(std::move(extension));
     }
 
     // Call the hook function for all registered extensions supporting the hook
-- 
2.43.0


From abb1fcc271d2be35b5e8764aa4b9ac1ae613a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:14 +0000
Subject: [PATCH 39/40] fix: read rows longer than a chunk and line endings
 across a chunk border of a trace

---
 src/cli/lib/DRAMPower/cli/csv.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cli/lib/DRAMPower/cli/csv.hpp b/src/cli/lib/DRAMPower/cli/csv.hpp
index 9cebfc2..b125f7f 100644
--- a/src/cli/lib/DRAMPower/cli/csv.hpp
+++ b/src/cli/lib/DRAMPower/cli/csv.hpp
@@ -7109,14 +7109,24 @@ namespace csv {
             // Create string view
             this->data_ptr->data = csv::string_view(mmap_ptr->data(), mmap_ptr->length());
 
+            // A line ending of two characters is not split between two chunks
+            const bool last_chunk = this->mmap_pos == this->source_size || no_chunk();
+            while (!last_chunk && !this->data_ptr->data.empty() && parse_flag(this->data_ptr->data.back()) == ParseFlags::NEWLINE)
+                this->data_ptr->data.remove_suffix(1);
+
             // Parse
             this->current_row = CSVRow(this->data_ptr);
             size_t remainder = this->parse();            
 
-            if (this->mmap_pos == this->source_size || no_chunk()) {
+            if (last_chunk) {
                 this->_eof = true;
                 this->end_feed();
             }
+            else if (remainder == 0) {
+                // The row is longer than the chunk
+                this->mmap_pos -= length;
+                return this->next(bytes * 2);
+            }
 
             this->mmap_pos -= (length - remainder);
         }
-- 
2.43.0


From d22c0849597d878f4a326ce98e9828f4187a311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:12 +0000
Subject: [PATCH 40/40] fix: wait for the chunk of a trace before looking at
 its rows

---
 src/cli/lib/DRAMPower/cli/csv.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cli/lib/DRAMPower/cli/csv.hpp b/src/cli/lib/DRAMPower/cli/csv.hpp
index b125f7f..1154b86 100644
--- a/src/cli/lib/DRAMPower/cli/csv.hpp
+++ b/src/cli/lib/DRAMPower/cli/csv.hpp
@@ -7541,6 +7541,8 @@ namespace csv {
                         this->read_csv_worker.join();
 
                     this->read_csv_worker = std::thread(&CSVReader::read_csv, this, internals::ITERATION_CHUNK_SIZE);
+                    // As in begin(): the rows and the end of the file are only looked at when the chunk is complete
+                    this->read_csv_worker.join();
                 }
             }
             else if (this->records->front().size() != this->n_cols &&
-- 
2.43.0

