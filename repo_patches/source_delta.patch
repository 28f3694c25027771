From 8a66aaf1675e3d17076bc256d3d2f6cf38b4c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 01/69] fix: GnssObservable::frequency is not noexcept, unknown
 bands throw

---
 src/gnssobsrv.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gnssobsrv.hpp b/src/gnssobsrv.hpp
index f6f37b9..974a200 100644
--- a/src/gnssobsrv.hpp
+++ b/src/gnssobsrv.hpp
@@ -125,7 +125,11 @@ public:
     __vec.emplace_back(sys, code, coef);
   }
 
-  double frequency() const noexcept {
+  /// Sum of the nominal frequencies of the parts, each multiplied by its
+  /// coefficient (in MHz).
+  /// @throw std::out_of_range if a satellite system does not transmit on the
+  ///        band of one of the parts
+  double frequency() const {
     double frequency = 0e0;
     for (const auto &v : __vec)
       frequency += v.frequency();
-- 
2.43.0


From 8aa3f415f688a8d8d8e0e53ae6ec4ff7829ac3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 02/69] fix: observables are equal only if their parts occur
 equally often

---
 src/gnssobsrv.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/gnssobsrv.cpp b/src/gnssobsrv.cpp
index 2dc58b3..d214759 100644
--- a/src/gnssobsrv.cpp
+++ b/src/gnssobsrv.cpp
@@ -65,11 +65,6 @@ bool ngpt::GnssObservable::operator==(const ngpt::GnssObservable &o) const
     noexcept {
   if (o.__vec.size() != __vec.size())
     return false;
-  for (const auto &i : __vec)
-    if (auto it = std::find_if(
-            o.__vec.begin(), o.__vec.end(),
-            [&ic = std::as_const(i)](const __ObsPart &p) { return p == ic; });
-        it == o.__vec.end())
-      return false;
-  return true;
+  // same parts with the same multiplicities, whatever their order
+  return std::is_permutation(__vec.begin(), __vec.end(), o.__vec.begin());
 }
-- 
2.43.0


From d8cd54bfec25108f009d8d25e4c74743d8f1807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 03/69] fix: compare_serial ignores the blanks that pad a
 stored serial

---
 src/antenna.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index 8b11f9e..14c966a 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -124,12 +124,22 @@ bool ReceiverAntenna::compare_model(const ReceiverAntenna &rhs) const noexcept {
   return !std::strncmp(__name, rhs.__name, sz);
 }
 
-/// Compare the antenna's serial number to the given c-string
+/// Compare the antenna's serial number to the given c-string; trailing
+/// whitespace characters (e.g. the ones padding the stored serial) are not
+/// considered.
 /// @param[in] c The serial to check against
 /// @return		   True if the serials match exactly; false otherwise
 bool ReceiverAntenna::compare_serial(const char *c) const noexcept {
   constexpr auto idx = antenna_model_max_chars + 1 + antenna_radome_max_chars;
-  return !std::strncmp(__name + idx, c, antenna_serial_max_chars);
+  const auto trimmed_size = [](const char *str) noexcept {
+    std::size_t size = std::strlen(str);
+    while (size && str[size - 1] == ' ')
+      --size;
+    return size;
+  };
+  const std::size_t size = trimmed_size(c);
+  return size == trimmed_size(__name + idx) &&
+         !std::memcmp(__name + idx, c, size);
 }
 
 /// Check if the Antenna instance has a serial number; that is, any of the
-- 
2.43.0


From 9842b6d385ca1806cc07f5f40cad54ba837937cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 04/69] fix: SatelliteAntenna::is_same is true for the same
 antenna, not the others

---
 src/antenna.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index 14c966a..623100f 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -199,7 +199,7 @@ SatelliteAntenna::SatelliteAntenna(const char *c) noexcept {
 /// @return       Returns true of the passed in c-string holds the same
 ///               antenna type as this instance; false otherwise
 bool SatelliteAntenna::is_same(const char *c) const noexcept {
-  return std::strncmp(__name, c, satellite_antenna_max_chars);
+  return !std::strncmp(__name, c, satellite_antenna_max_chars);
 }
 
 /// Set the model name to nothing, that is to 20 null terminating chars
-- 
2.43.0


From 4eb7972b53aa4121499dd4fe5f4480fc1750474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 05/69] fix: a satellite without a COSPAR id does not print
 uninitialised memory

---
 src/satellite.cpp | 5 ++++-
 src/satellite.hpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/satellite.cpp b/src/satellite.cpp
index 5b3a100..5f055a2 100644
--- a/src/satellite.cpp
+++ b/src/satellite.cpp
@@ -1,4 +1,5 @@
 #include "satellite.hpp"
+#include <cstring>
 
 using ngpt::Satellite;
 
@@ -18,5 +19,7 @@ std::string Satellite::to_string(bool compact) const noexcept {
     sat += ("-" + s);
 
   return sat +
-         std::string("/" + std::string(__cospar, detail::COSPAR_ID_CHARS));
+         std::string("/" + std::string(__cospar,
+                                       strnlen(__cospar,
+                                               detail::COSPAR_ID_CHARS)));
 }
diff --git a/src/satellite.hpp b/src/satellite.hpp
index dd07986..d40f196 100644
--- a/src/satellite.hpp
+++ b/src/satellite.hpp
@@ -113,7 +113,7 @@ private:
                               ///< (QZSS); blank (Compass, SBAS)
   SatelliteAntenna __antenna; ///< antenna type
   char
-      __cospar[detail::COSPAR_ID_CHARS + 1]; ///< The COSPAR id, aka "YYYY-XXXA"
+      __cospar[detail::COSPAR_ID_CHARS + 1]{}; ///< The COSPAR id, aka "YYYY-XXXA"
 };                                           // Satellite
 
 } // namespace ngpt
-- 
2.43.0


From 5c2e9d8062f06aaad2592b5bcaeaf96276754579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 06/69] fix: numbers are read from their own fixed-width column
 only

---
 src/nvarstr.hpp | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/nvarstr.hpp b/src/nvarstr.hpp
index 7c4ee64..d135590 100644
--- a/src/nvarstr.hpp
+++ b/src/nvarstr.hpp
@@ -1,6 +1,9 @@
 #ifndef __NTUA_VARIOUS_STR_FUNCTIONS_HPP__
 #define __NTUA_VARIOUS_STR_FUNCTIONS_HPP__
 
+#include <cerrno>
+#include <cstdlib>
+#include <cstring>
 #include <string>
 
 namespace ngpt {
@@ -73,23 +76,39 @@ std::string rtrim(const char *str, std::size_t &pos,
 std::string ltrim(const char *str, std::size_t &start,
                   std::size_t stop = -1) noexcept;
 
+/// @brief Resolve the number written in the next M characters of a c-string and
+///        move past them.
+/// @param[in,out] line  Start of the column; at exit, start of the next one
+/// @param[out]    value The resolved number
+/// @return False if there is no number in the column, e.g. because it is blank
+///         or the string ends before it. Characters past the column (or past
+///         the end of the string) are never considered.
+template <int M>
+inline bool __column2double__(const char *&line, double &value) noexcept {
+  char column[M + 1], *end;
+  const std::size_t size = strnlen(line, M);
+  std::memcpy(column, line, size);
+  column[size] = '\0';
+  line += size;
+  value = std::strtod(column, &end);
+  return end != column;
+}
+
 /// @details Resolve a string of N doubles, written with M digits (i.e. in the
 ///          format N*DM.x as in RINEX 3.x) and asigne them to data[0,N).
 /// @param[in]  line  A c-string containing N doubles written with M digits
 /// @param[out] data  An array of (at least) N-1 elements; the resolved doubles
 ///                   will be written in data[0]...data[N-1]
 /// @return  True if all numbers were resolved and assigned; false otherwise
-/// @warning The function will check 'errno'. Be sure that it is 0 at input. If
-///          an error occurs in the function call, it may be set to !=0, so be
+/// @warning The function will clear and then check 'errno'. If an error occurs in
+///          the function call, it may be set to !=0, so be
 ///          sure to clear it (aka 'errno') after exit.
 template <int N, int M>
 inline bool __char2double__(const char *line, double *data) noexcept {
-  char *end;
+  errno = 0;
   for (int i = 0; i < N; i++) {
-    data[i] = std::strtod(line, &end);
-    if (line == end)
+    if (!__column2double__<M>(line, data[i]))
       return false;
-    line += M;
   }
   return errno ? false : true;
 }
@@ -100,19 +119,17 @@ inline bool __char2double__(const char *line, double *data) noexcept {
 /// @param[out] data  An array of (at least) N-1 elements; the resolved doubles
 ///                   will be written in data[0]...data[N-1]
 /// @return  True if all numbers were resolved and assigned; false otherwise
-/// @warning The function will check 'errno'. Be sure that it is 0 at input. If
-///          an error occurs in the function call, it may be set to !=0, so be
+/// @warning The function will clear and then check 'errno'. If an error occurs in
+///          the function call, it may be set to !=0, so be
 ///          sure to clear it (aka 'errno') after exit.
 /// @note exactly the same as the template version, only we don't know how many
 /// doubles we are resolving at compile time.
 template <int M>
 inline bool __char2double__(const char *line, double *data, int N) noexcept {
-  char *end;
+  errno = 0;
   for (int i = 0; i < N; i++) {
-    data[i] = std::strtod(line, &end);
-    if (line == end)
+    if (!__column2double__<M>(line, data[i]))
       return false;
-    line += M;
   }
   return errno ? false : true;
 }
-- 
2.43.0


From c55a19fbcf43bd49cf44be0bac6abe0a9e0e681a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 07/69] fix: ANTEX reading looks at no stale columns of short
 lines and ends with the file

---
 src/antex.cpp | 79 ++++++++++++++++++++++++++-------------------------
 1 file changed, 41 insertions(+), 38 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 74b2de7..12caeff 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -3,6 +3,7 @@
 #include "nvarstr.hpp"
 #include <cassert>
 #include <cstring>
+#include <limits>
 #include <stdexcept>
 #ifdef DEBUG
 #include <iostream>
@@ -45,6 +46,21 @@ constexpr std::size_t eoh_size{std::strlen("END OF HEADER")};
 ///          8*(std::size_t)((zen2-zen1)/dzen) < MAX_GRID_CHARS-10
 constexpr std::size_t MAX_GRID_CHARS{512};
 
+/// @brief Read the next line of an antex stream into a c-string.
+/// The buffer is filled with '\0' past the line's end, so that any column of
+/// it can be inspected, even if the line read (if any) was shorter. Lines that
+/// do not fit are cut; the rest of such lines is skipped.
+/// @return False if there was no line to read (i.e. EOF or a failed stream)
+template <std::size_t N>
+bool next_line(std::ifstream &fin, char (&line)[N]) noexcept {
+  std::memset(line, '\0', N);
+  if (!fin.getline(line, N) && !fin.eof() && !fin.bad() && fin.gcount()) {
+    fin.clear();
+    fin.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+  }
+  return static_cast<bool>(fin);
+}
+
 // Forward declerationof non Antex:: functions;
 int collect_pco(std::ifstream &, ngpt::AntennaPcoList &) noexcept;
 int resolve_satellite_antenna_line(const char *, Satellite &) noexcept;
@@ -123,7 +139,7 @@ int Antex::read_header() noexcept {
 
   // Read the first line. Get version and system.
   // ----------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line);
   // strtod will keep on reading untill a non-valid
   // char is read. Fuck this, lets split the string
   // so that it only reads the valid chars (for version).
@@ -146,7 +162,7 @@ int Antex::read_header() noexcept {
   // Read the second line. Get PCV TYPE / REFANT.
   // If the atx is of type relative, then just return with error
   // ----------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line);
   if (*line != 'A') {
     return 12;
   }
@@ -154,13 +170,13 @@ int Antex::read_header() noexcept {
   // Keep on readling lines until 'END OF HEADER'.
   // ----------------------------------------------------
   int dummy_it = 0;
-  __istream.getline(line, MAX_HEADER_CHARS);
-  while (dummy_it < MAX_HEADER_LINES &&
+  next_line(__istream, line);
+  while (__istream && dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line(__istream, line);
     dummy_it++;
   }
-  if (dummy_it >= MAX_HEADER_LINES) {
+  if (!__istream || dummy_it >= MAX_HEADER_LINES) {
     return 20;
   }
 
@@ -205,7 +221,7 @@ int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
 
   // Read the first line. Should be "START OF ANTENNA"
   // ----------------------------------------------------
-  if (!__istream.getline(line, MAX_HEADER_CHARS) ||
+  if (!next_line(__istream, line) ||
       std::strncmp(line + 60, "START OF ANTENNA", 16)) {
     if (__istream.eof()) {
       __istream.clear();
@@ -216,7 +232,7 @@ int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
 
   // Read the next line. Should be "TYPE / SERIAL NO"
   // ----------------------------------------------------
-  if (!__istream.getline(line, MAX_HEADER_CHARS) ||
+  if (!next_line(__istream, line) ||
       std::strncmp(line + 60, "TYPE / SERIAL NO", 16)) {
     return 11;
   }
@@ -248,18 +264,11 @@ int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
 /// @return Anything other than 0 denotes an error.
 int Antex::skip_rest_of_antenna() noexcept {
   char line[MAX_GRID_CHARS];
-  int max_antenna_lines = 5000;
 
-  int dummy_it = 0;
   do {
-    __istream.getline(line, MAX_GRID_CHARS);
-    dummy_it++;
-  } while (std::strncmp(line + 60, "END OF ANTENNA", 14) &&
-           dummy_it < max_antenna_lines);
-
-  if (dummy_it >= max_antenna_lines) {
-    return 1;
-  }
+    if (!next_line(__istream, line))
+      return 1;
+  } while (std::strncmp(line + 60, "END OF ANTENNA", 14));
 
   return 0;
 }
@@ -410,19 +419,18 @@ int resolve_satellite_antenna_line(const char *line, Satellite &sat) noexcept {
 int check_time_interval(std::ifstream &fin,
                         const ngpt::datetime<ngpt::seconds> &at) noexcept {
   char line[MAX_GRID_CHARS];
-  int max_lines = 5000;
 
   // next field is 'METH / BY / # / DATE'
-  if (!fin.getline(line, MAX_GRID_CHARS) ||
+  if (!next_line(fin, line) ||
       std::strncmp(line + 60, "METH / BY / # / DATE", 20)) {
     return 10;
   }
 
-  int dummy_it = 0;
   bool from_ok = false, to_ok = false;
   ngpt::datetime<ngpt::seconds> from, to;
   do {
-    fin.getline(line, MAX_GRID_CHARS);
+    if (!next_line(fin, line))
+      return 20;
     if (!std::strncmp(line + 60, "VALID FROM", 10)) {
       try {
         from = ngpt::strptime_ymd_hms<ngpt::seconds>(line);
@@ -440,8 +448,7 @@ int check_time_interval(std::ifstream &fin,
     }
     if (from_ok && to_ok)
       break;
-  } while (std::strncmp(line + 60, "START OF FREQUENCY", 18) &&
-           dummy_it < max_lines);
+  } while (std::strncmp(line + 60, "START OF FREQUENCY", 18));
   // do not use the following check
   // } while (std::strncmp(line+60, "END OF ANTENNA", 14) && dummy_it <
   // max_lines); cause this may leave the stream just after the line "END OF
@@ -449,10 +456,6 @@ int check_time_interval(std::ifstream &fin,
   // will cause a whole antenna record block to be skipped. This was indeed a
   // bug (for the function find_satellite_antenna()
 
-  if (++dummy_it >= max_lines) {
-    return 20;
-  }
-
   // note that if we have found "VALID FROM" but not "VALID UNTIL", then
   // "VALID UNTIL" is forever ....
   if (!from_ok) {
@@ -692,27 +695,27 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   char tmp[11];
 
   // next field is 'METH / BY / # / DATE'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!next_line(fin, hline) ||
       std::strncmp(hline + 60, "METH / BY / # / DATE", 20)) {
     return 1;
   }
 
   // next field is 'DAZI'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!next_line(fin, hline) ||
       std::strncmp(hline + 60, "DAZI", 4)) {
     // dazi = std::stof(hline+2, nullptr);
     return 2;
   }
 
   // next field is 'ZEN1 / ZEN2 / DZEN'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!next_line(fin, hline) ||
       std::strncmp(hline + 60, "ZEN1 / ZEN2 / DZEN", 18)) {
     return 3;
   }
 
   // next field is '# OF FREQUENCIES'
   int num_of_freqs = 0;
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!next_line(fin, hline) ||
       std::strncmp(hline + 60, "# OF FREQUENCIES", 16)) {
     return 4;
   } else {
@@ -726,7 +729,7 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   // From here up untill the block 'START OF FREQUENCY' there can be a number
   // of optional fields.
   do {
-    fin.getline(hline, MAX_HEADER_CHARS);
+    next_line(fin, hline);
   } while (fin && std::strncmp(hline + 60, "START OF FREQUENCY", 18));
 
   ngpt::SATELLITE_SYSTEM ss;
@@ -739,9 +742,9 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
       // wait!! this might be a frequency rms from the previous frequency
       if (!std::strncmp(hline + 60, "START OF FREQ RMS", 17)) {
         do {
-          fin.getline(gline, MAX_GRID_CHARS);
+          next_line(fin, gline);
         } while (fin && std::strncmp(gline + 60, "END OF FREQ RMS", 15));
-        if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+        if (!next_line(fin, hline) ||
             std::strncmp(hline + 60, "START OF FREQUENCY", 18)) {
           return 11;
         }
@@ -758,7 +761,7 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     }
     obsc.band() = bn;
     // next field is 'NORTH / EAST / UP'
-    if (fin.getline(hline, MAX_HEADER_CHARS) &&
+    if (next_line(fin, hline) &&
         !std::strncmp(hline + 60, "NORTH / EAST / UP", 17)) {
       tmp[10] = '\0';
       std::memcpy(tmp, hline, 10);
@@ -774,10 +777,10 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     pco_list.__vecref__().emplace_back(obsc, ss, dn, de, du);
     // skip lines until "END OF FREQUENCY"
     do {
-      fin.getline(gline, MAX_GRID_CHARS);
+      next_line(fin, gline);
     } while (fin && std::strncmp(gline + 60, "END OF FREQUENCY", 16));
     // read the following line into hline
-    fin.getline(hline, MAX_HEADER_CHARS);
+    next_line(fin, hline);
   }
 
   return 0;
-- 
2.43.0


From 93d8aaf432d6f71127af40c3aa52bd8caab0567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 08/69] fix: ANTEX lookups do not depend on an earlier lookup's
 stream errors

---
 src/antex.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/antex.cpp b/src/antex.cpp
index 12caeff..88d83e3 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -97,6 +97,7 @@ void Antex::reset_to_file(const char *filename) {
   if (__istream.is_open())
     __istream.close();
   __filename = std::string(filename);
+  __istream.clear();
   __istream.open(filename, std::ios_base::in);
   __satsys = SATELLITE_SYSTEM::mixed;
   __version = Antex::ATX_VERSION::v14;
@@ -291,6 +292,7 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
                                       ReceiverAntenna &ant_out,
                                       pos_type &ant_pos) noexcept {
   // go to the top of the file, after the header
+  __istream.clear();
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant, best_match_ant;
@@ -495,6 +497,7 @@ int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
   char line[MAX_HEADER_CHARS];
 
   // go to the top of the file, after the header
+  __istream.clear();
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant;
-- 
2.43.0


From 0c119c48b3ecfc9242e352ca49cd0574fe39a634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 09/69] fix: an antenna absent from an ANTEX file is reported
 as not found

---
 src/antex.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 88d83e3..a8e05d5 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -297,7 +297,8 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
 
   ReceiverAntenna cur_ant, best_match_ant;
   pos_type best_match_pos;
-  int stat1, stat2;
+  bool model_matched = false;
+  int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant))) {
     if (cur_ant.is_same(ant_in)) {
@@ -308,12 +309,13 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
     if (cur_ant.compare_model(ant_in) && !cur_ant.has_serial()) {
       best_match_ant = cur_ant;
       best_match_pos = __istream.tellg();
+      model_matched = true;
     }
     if ((stat2 = skip_rest_of_antenna()))
       break;
   }
   // some error status is set
-  if (stat1 > 0 || stat2) {
+  if (stat1 > 0 || stat2 || !model_matched) {
     return 1;
   }
   ant_out = best_match_ant;
-- 
2.43.0


From fe7002c1d4c1fbe5da6569f8d7d8273be94cde93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 10/69] fix: a satellite lookup in ANTEX carries nothing over
 from other entries

---
 src/antex.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index a8e05d5..55840cf 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -452,13 +452,11 @@ int check_time_interval(std::ifstream &fin,
     }
     if (from_ok && to_ok)
       break;
-  } while (std::strncmp(line + 60, "START OF FREQUENCY", 18));
-  // do not use the following check
-  // } while (std::strncmp(line+60, "END OF ANTENNA", 14) && dummy_it <
-  // max_lines); cause this may leave the stream just after the line "END OF
-  // ANTENNA" that means that calling next the skip_rest_of_antenna function
-  // will cause a whole antenna record block to be skipped. This was indeed a
-  // bug (for the function find_satellite_antenna()
+  } while (std::strncmp(line + 60, "START OF FREQUENCY", 18) &&
+           std::strncmp(line + 60, "END OF ANTENNA", 14));
+  // note that this may leave the stream just after the line "END OF ANTENNA";
+  // calling next the skip_rest_of_antenna function would cause a whole antenna
+  // record block to be skipped, unless the stream is first repositioned.
 
   // note that if we have found "VALID FROM" but not "VALID UNTIL", then
   // "VALID UNTIL" is forever ....
@@ -496,18 +494,17 @@ int check_time_interval(std::ifstream &fin,
 int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
                                   const ngpt::datetime<ngpt::seconds> &at,
                                   pos_type &ant_pos, Satellite *sv) noexcept {
-  char line[MAX_HEADER_CHARS];
+  char line[MAX_HEADER_CHARS] = {};
 
   // go to the top of the file, after the header
   __istream.clear();
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant;
-  Satellite cur_sat;
-  int stat1, stat2;
+  int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant, line))) {
-    cur_sat.system() = SATELLITE_SYSTEM::mixed;
+    Satellite cur_sat(SATELLITE_SYSTEM::mixed);
     ant_pos = __istream.tellg();
     if (!resolve_satellite_antenna_line(line, cur_sat)) {
       if (cur_sat.prn() == prn && cur_sat.system() == ss) {
@@ -516,6 +513,9 @@ int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
             *sv = cur_sat;
           return 0;
         }
+        // the rest of this (and no other) antenna is to be skipped
+        __istream.clear();
+        __istream.seekg(ant_pos, std::ios_base::beg);
       }
     }
     if ((stat2 = skip_rest_of_antenna()))
-- 
2.43.0


From 4a062b6aa341fdb4441252fdc48db929230bf62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 11/69] fix: malformed ANTEX frequency sections are an error,
 not a crash or another antenna's offsets

---
 src/antex.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 55840cf..fce5e73 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -735,7 +735,8 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   // of optional fields.
   do {
     next_line(fin, hline);
-  } while (fin && std::strncmp(hline + 60, "START OF FREQUENCY", 18));
+  } while (fin && std::strncmp(hline + 60, "START OF FREQUENCY", 18) &&
+           std::strncmp(hline + 60, "END OF ANTENNA", 14));
 
   ngpt::SATELLITE_SYSTEM ss;
   ngpt::ObservationCode obsc;
@@ -748,7 +749,10 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
       if (!std::strncmp(hline + 60, "START OF FREQ RMS", 17)) {
         do {
           next_line(fin, gline);
-        } while (fin && std::strncmp(gline + 60, "END OF FREQ RMS", 15));
+        } while (fin && std::strncmp(gline + 60, "END OF FREQ RMS", 15) &&
+                 std::strncmp(gline + 60, "END OF ANTENNA", 14));
+        if (!std::strncmp(gline + 60, "END OF ANTENNA", 14))
+          return 11;
         if (!next_line(fin, hline) ||
             std::strncmp(hline + 60, "START OF FREQUENCY", 18)) {
           return 11;
@@ -769,12 +773,16 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     if (next_line(fin, hline) &&
         !std::strncmp(hline + 60, "NORTH / EAST / UP", 17)) {
       tmp[10] = '\0';
-      std::memcpy(tmp, hline, 10);
-      dn = std::stod(tmp);
-      std::memcpy(tmp, hline + 10, 10);
-      de = std::stod(tmp);
-      std::memcpy(tmp, hline + 20, 10);
-      du = std::stod(tmp);
+      try {
+        std::memcpy(tmp, hline, 10);
+        dn = std::stod(tmp);
+        std::memcpy(tmp, hline + 10, 10);
+        de = std::stod(tmp);
+        std::memcpy(tmp, hline + 20, 10);
+        du = std::stod(tmp);
+      } catch (std::exception &) {
+        return 8;
+      }
     } else {
       return 7;
     }
@@ -783,7 +791,10 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     // skip lines until "END OF FREQUENCY"
     do {
       next_line(fin, gline);
-    } while (fin && std::strncmp(gline + 60, "END OF FREQUENCY", 16));
+    } while (fin && std::strncmp(gline + 60, "END OF FREQUENCY", 16) &&
+             std::strncmp(gline + 60, "END OF ANTENNA", 14));
+    if (std::strncmp(gline + 60, "END OF FREQUENCY", 16))
+      return 9;
     // read the following line into hline
     next_line(fin, hline);
   }
-- 
2.43.0


From 36a9e3c362ae34406bbf98c82bcee43e883c2d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 12/69] fix: SATELLIT reading looks at no stale columns and
 ends with the file, not after 1000 lines

---
 src/bern_utils.cpp | 49 ++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index 704763e..9a5a63e 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -2,6 +2,7 @@
 #include "ggdatetime/datetime_read.hpp"
 #include <cassert>
 #include <cstring>
+#include <limits>
 #include <stdexcept>
 #ifdef DEBUG
 #include "ggdatetime/datetime_write.hpp"
@@ -10,6 +11,22 @@
 
 constexpr int MAX_SATELLIT_CHARS = 256;
 
+/// @brief Read the next line of a SATELLIT stream into a c-string.
+/// The buffer is filled with '\0' past the line's end, so that any column of
+/// it can be inspected, even if the line read (if any) was shorter. Lines that
+/// do not fit (e.g. with a long signal list) are cut.
+/// @return False if there was no line to read (i.e. EOF or a failed stream)
+static bool read_line(std::ifstream &fin,
+                      char (&line)[MAX_SATELLIT_CHARS]) noexcept {
+  std::memset(line, '\0', MAX_SATELLIT_CHARS);
+  if (!fin.getline(line, MAX_SATELLIT_CHARS) && !fin.eof() && !fin.bad() &&
+      fin.gcount()) {
+    fin.clear();
+    fin.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+  }
+  return static_cast<bool>(fin);
+}
+
 /// Constructor; after this, the stream will be opened, and the start of
 /// 'PART 2' of the file marked.
 ///
@@ -40,7 +57,6 @@ ngpt::BernSatellit::BernSatellit(const char *fn)
 ///            >0 -> An error occured while reading the records
 int ngpt::BernSatellit::get_frequency_channel(
     int svn, const ngpt::datetime<ngpt::seconds> &eph, int &ifrqn, int &prn) {
-  const int max_lines = 1000;
   char line[MAX_SATELLIT_CHARS];
 
   // The stream should be open by now!
@@ -51,12 +67,10 @@ int ngpt::BernSatellit::get_frequency_channel(
   __istream.seekg(__part2);
 
   // keep reading untill we match svn and epoch
-  int line_count = 0, csvn;
+  int csvn;
   char *end;
-  bool satellite_matched = false;
   ngpt::datetime<ngpt::seconds> start, stop;
-  __istream.getline(line, MAX_SATELLIT_CHARS);
-  while (!satellite_matched && line_count < max_lines) {
+  while (read_line(__istream, line)) {
     // we are only interested in satellites of type: 'MW' everything else
     // is desregarded and may cause a problem when resolving; e.g. SLR records
     // have no SVN field
@@ -76,7 +90,6 @@ int ngpt::BernSatellit::get_frequency_channel(
           }
         }
         if (eph >= start && eph < stop) {
-          satellite_matched = true;
           prn = static_cast<int>(std::strtol(line, &end, 10));
           ifrqn = static_cast<int>(std::strtol(line + 193, &end, 10));
           if (errno == ERANGE) {
@@ -90,14 +103,12 @@ int ngpt::BernSatellit::get_frequency_channel(
         }
       }
     }
-    __istream.getline(line, MAX_SATELLIT_CHARS);
-    ++line_count;
     // check for end of records
     if (std::strlen(line) < 10 || !std::strncmp("PART 3", line, 6))
       return -1;
   }
 
-  return (line_count >= max_lines) ? (-1) : 5;
+  return __istream.eof() ? (-1) : 5;
 }
 
 /// This function should only be called once, inside the object's constructor.
@@ -107,7 +118,6 @@ int ngpt::BernSatellit::get_frequency_channel(
 /// (inside the file) it is placed (aka store it in __part2).
 /// @return  Anything other than 0, denotes an error
 int ngpt::BernSatellit::initialize() noexcept {
-  const int max_lines = 1000;
   const char *line1 =
       "SATELLITE-SPECIFIC INFO FOR GPS/GLONASS/GEO/LEO/SLR, BSW5.2";
   const int line1_sz = std::strlen(line1);
@@ -124,7 +134,7 @@ int ngpt::BernSatellit::initialize() noexcept {
 
   // Read the first line and verify
   // ----------------------------------------------------
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+  read_line(__istream, line);
   if (std::strncmp(line1, line, line1_sz)) {
     std::cerr << "\n[ERROR] Failed to verify first liine of SATELIT file";
     return 10;
@@ -132,25 +142,22 @@ int ngpt::BernSatellit::initialize() noexcept {
 
   // Read rest of lines untill we hit
   // PART 2: ON-BOARD SENSORS
-  int line_count = 0;
-  while (std::strncmp(line2, line, line2_sz) && line_count < max_lines) {
-    __istream.getline(line, MAX_SATELLIT_CHARS);
-    ++line_count;
-  }
+  while (std::strncmp(line2, line, line2_sz) && read_line(__istream, line))
+    ;
   // verify that it is ineed the line we want (and the stream is ok)
-  if (!__istream.good() || line_count >= max_lines)
+  if (!__istream.good())
     return 11;
   // next line is just a series of  '-' chars
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+  read_line(__istream, line);
   // next two lines are column descriptions (for the lines that follow)
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+  read_line(__istream, line);
   const char *hln1 = "                                              START TIME "
                      "          END TIME                 SENSOR OFFSETS (M)    "
                      "   SENSOR BORESIGHT VECTOR (U) SENSOR AZIMUTH VECTOR (N)";
   const int hln1_sz = std::strlen(hln1);
   if (std::strncmp(hln1, line, hln1_sz))
     return 12;
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+  read_line(__istream, line);
   const char *hln2 =
       "PRN  TYPE  SENSOR NAME______SVN  NUMBER  YYYY MM DD HH MM SS  YYYY MM "
       "DD HH MM SS         DX        DY        DZ         X       Y       Z    "
@@ -162,7 +169,7 @@ int ngpt::BernSatellit::initialize() noexcept {
 
   // Cool! we leave the stream here and mark this position; next line to be
   // read is an empty line and then a record line
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+  read_line(__istream, line);
   __part2 = __istream.tellg();
 
   // All done !
-- 
2.43.0


From 5c2637ec3281a3f1b27890c8fe42298e52c00d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 13/69] fix: SATELLIT queries depend neither on earlier ones
 nor on a leftover errno

---
 src/bern_utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index 9a5a63e..84c5ec9 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -64,6 +64,7 @@ int ngpt::BernSatellit::get_frequency_channel(
     return 1;
 
   // Go to the top of the relevant field (in file)
+  __istream.clear();
   __istream.seekg(__part2);
 
   // keep reading untill we match svn and epoch
@@ -75,6 +76,7 @@ int ngpt::BernSatellit::get_frequency_channel(
     // is desregarded and may cause a problem when resolving; e.g. SLR records
     // have no SVN field
     if (line[5] == 'M' && line[6] == 'W') {
+      errno = 0;
       csvn = static_cast<int>(std::strtol(line + 28, &end, 10));
       if (errno == ERANGE || end == line + 28) {
         errno = 0;
-- 
2.43.0


From 56dcba5cddf4e08f567a45473ea0cd4707f468e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 14/69] fix: SATELLIT records with unreadable dates or channel
 are reported by the status

---
 src/bern_utils.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index 84c5ec9..e3498a3 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -83,18 +83,22 @@ int ngpt::BernSatellit::get_frequency_channel(
         return 2;
       }
       if (csvn == svn) {
-        start = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 41);
-        stop = ngpt::datetime<ngpt::seconds>::max();
-        for (int i = 62; i < 82; i++) {
-          if (line[i] != ' ') {
-            stop = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 62);
-            break;
+        try {
+          start = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 41);
+          stop = ngpt::datetime<ngpt::seconds>::max();
+          for (int i = 62; i < 82; i++) {
+            if (line[i] != ' ' && line[i] != '\0') {
+              stop = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 62);
+              break;
+            }
           }
+        } catch (std::exception &) {
+          return 4;
         }
         if (eph >= start && eph < stop) {
           prn = static_cast<int>(std::strtol(line, &end, 10));
           ifrqn = static_cast<int>(std::strtol(line + 193, &end, 10));
-          if (errno == ERANGE) {
+          if (errno == ERANGE || end == line + 193) {
             errno = 0;
             // throw std::runtime_error("[ERROR] Failed to resolve svn from
             // SATELLIT file");
-- 
2.43.0


From c5ab06c4e47b9d640c528d7ca1e70edf330e3574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 15/69] fix: Sp3 reading looks at no stale columns, ends with
 the file and takes any number of header lines

---
 src/sp3c.cpp | 65 ++++++++++++++++++++++++++++------------------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index c239596..6990b4e 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -13,12 +13,24 @@ using ngpt::Sp3c;
 /// they  exceed this limit, just a bit ...
 constexpr int MAX_HEADER_CHARS{85};
 
-/// Max header lines.
-constexpr int MAX_HEADER_LINES{1000};
-
 /// Max record characters (for a navigation data block)
 constexpr int MAX_RECORD_CHARS{128};
 
+/// @brief Read the next line of an Sp3 stream into a c-string.
+/// The buffer is filled with '\0' past the line's end, so that any column of
+/// it can be inspected, even if the line read (if any) was shorter. Lines that
+/// do not fit are cut; the rest of such lines is skipped.
+/// @return False if there was no line to read (i.e. EOF or a failed stream)
+template <std::size_t N>
+static bool next_line(std::ifstream &fin, char (&line)[N]) noexcept {
+  std::memset(line, '\0', N);
+  if (!fin.getline(line, N) && !fin.eof() && !fin.bad() && fin.gcount()) {
+    fin.clear();
+    fin.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+  }
+  return static_cast<bool>(fin);
+}
+
 /// @details Sp3c constructor, using a filename. The constructor will
 ///          initialize (set) the _filename attribute and also (try to)
 ///          open the input stream (i.e. _istream).
@@ -52,7 +64,6 @@ void Sp3c::rewind(pos_type pos) noexcept {
 int Sp3c::read_header() noexcept {
   char line[MAX_HEADER_CHARS];
   char *str_end;
-  int dummy_it = 0;
 
   // The stream should be open by now!
   if (!__istream.is_open())
@@ -63,7 +74,7 @@ int Sp3c::read_header() noexcept {
 
   // Read the first line. Error codes 10-19
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line);
   if (*line != '#')
     return 10; // validate version
   version__ = *(line + 1);
@@ -113,7 +124,7 @@ int Sp3c::read_header() noexcept {
 
   // Read the second line. Error codes [20,30)
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line);
   if (*line != '#' || line[1] != '#')
     return 20;
   int gwk = std::strtol(line + 3, &str_end, 10);
@@ -148,7 +159,7 @@ int Sp3c::read_header() noexcept {
   // '++'
   // Error code [10,40]
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line);
   if (*line != '+' || line[1] != ' ')
     return 30;
   num_sats__ = std::strtol(line + 3, &str_end, 10);
@@ -156,45 +167,39 @@ int Sp3c::read_header() noexcept {
     errno = 0;
     return 31;
   }
-  while (++dummy_it < MAX_HEADER_LINES && !std::strncmp(line, "+ ", 2)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
-  }
-  if (dummy_it >= MAX_HEADER_LINES) {
-    return 32;
+  while (!std::strncmp(line, "+ ", 2)) {
+    if (!next_line(__istream, line))
+      return 32;
   }
 
   // Read the satellite accuracy lines; they must be at least 5, but there is
   // no max limitation for the Sp3d files. Each satellite id line starts with '+
   // ' Error code [40,50]
   // ------------------------------------------------------------
-  // __istream.getline(line, MAX_HEADER_CHARS);
+  // next_line(__istream, line);
   if (*line != '+' || line[1] != '+')
     return 40;
-  while (++dummy_it < MAX_HEADER_LINES && !std::strncmp(line, "++", 2)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
-    char c = __istream.peek();
-    if (c != '+')
-      break;
-  }
-  if (dummy_it >= MAX_HEADER_LINES) {
-    return 41;
+  while (__istream.peek() == '+') {
+    next_line(__istream, line);
+    if (line[1] != '+')
+      return 41;
   }
 
   // two line follow, starting with '%c'; collect the system time
   // Error code [50,60]
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line);
   if (*line != '%' || line[1] != 'c')
     return 50;
   time_sys__ = std::string(line + 9, 3);
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line);
   if (*line != '%' || line[1] != 'c')
     return 51;
 
   // two line follow, starting with '%f'
   // ------------------------------------------------------------
   for (int i = 0; i < 2; i++) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line(__istream, line);
     if (*line != '%' || line[1] != 'f')
       return 60;
   }
@@ -202,7 +207,7 @@ int Sp3c::read_header() noexcept {
   // two line follow, starting with '%i'
   // ------------------------------------------------------------
   for (int i = 0; i < 2; i++) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line(__istream, line);
     if (*line != '%' || line[1] != 'i')
       return 70;
   }
@@ -211,12 +216,10 @@ int Sp3c::read_header() noexcept {
   // ------------------------------------------------------------
   char c = __istream.peek();
   while (c == '/') {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line(__istream, line);
     if (line[1] != '*')
       return 80;
     c = __istream.peek();
-    if (++dummy_it > MAX_HEADER_LINES)
-      return 81;
   }
 
   // Mark the end of header
@@ -249,7 +252,8 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
 
   if (!__istream.good())
     return 1;
-  __istream.getline(line, MAX_RECORD_CHARS);
+  if (!next_line(__istream, line))
+    return 1;
 
   if (line[0] != '*' || line[1] != ' ')
     return 2;
@@ -295,7 +299,8 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   do {
     c = __istream.peek();
     if (c != '*') {
-      __istream.getline(line, MAX_RECORD_CHARS);
+      if (!next_line(__istream, line))
+        return 3;
       if (*line == 'P') { /* position and clock line */
         if ((j = get_next_position(line, sys, prn, state, flag)))
           return j + 20;
-- 
2.43.0


From 9d63f4a29098e7e9f7a1b6781df74b24aac3e0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 16/69] fix: Sp3 reading depends neither on a leftover errno
 nor on having hit EOF before a rewind

---
 src/sp3c.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 6990b4e..9bb32b2 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -50,6 +50,7 @@ Sp3c::Sp3c(const char *filename)
 }
 
 void Sp3c::rewind(pos_type pos) noexcept {
+  __istream.clear();
   if (pos == pos_type(-1)) {
     __istream.seekg(__end_of_head);
   } else {
@@ -68,6 +69,7 @@ int Sp3c::read_header() noexcept {
   // The stream should be open by now!
   if (!__istream.is_open())
     return 1;
+  errno = 0;
 
   // Go to the top of the file.
   __istream.seekg(0);
@@ -249,6 +251,7 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   char line[MAX_RECORD_CHARS];
   char *end, *start, c;
   int date[5];
+  errno = 0;
 
   if (!__istream.good())
     return 1;
-- 
2.43.0


From 7741fe90dfada26fb7b07738bd7a85dd25bed076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 17/69] fix: Sp3 seconds are rounded, not truncated, to
 microseconds

---
 src/sp3c.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 9bb32b2..9eb8c71 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -2,6 +2,7 @@
 #include "ggdatetime/datetime_read.hpp"
 #include <algorithm>
 #include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
@@ -122,7 +123,7 @@ int Sp3c::read_header() noexcept {
   start_epoch__ = ngpt::datetime<ngpt::microseconds>(
       ngpt::year(year), ngpt::month(month), ngpt::day_of_month(dom),
       ngpt::hours(hour), ngpt::minutes(minute),
-      ngpt::microseconds(static_cast<long>(sec * 1e6)));
+      ngpt::microseconds(std::lround(sec * 1e6)));
 
   // Read the second line. Error codes [20,30)
   // ------------------------------------------------------------
@@ -143,7 +144,7 @@ int Sp3c::read_header() noexcept {
     return 22;
   }
   sec = std::strtod(line + 24, &str_end);
-  interval__ = ngpt::microseconds(static_cast<long>(sec * 1e6));
+  interval__ = ngpt::microseconds(std::lround(sec * 1e6));
   int mjd = std::strtol(line + 39, &str_end, 10);
   if (!mjd || errno == ERANGE) {
     errno = 0;
@@ -283,7 +284,7 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   t = ngpt::datetime<ngpt::microseconds>(
       ngpt::year(date[0]), ngpt::month(date[1]), ngpt::day_of_month(date[2]),
       ngpt::hours(date[3]), ngpt::minutes(date[4]),
-      ngpt::microseconds(static_cast<long>(fsec * 1e6)));
+      ngpt::microseconds(std::lround(fsec * 1e6)));
 
   ngpt::SATELLITE_SYSTEM sys;
   int prn, j = 0;
-- 
2.43.0


From 21d22ca57293e7f50dc505d756b151d8638888ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 18/69] fix: Sp3 start epochs with a rounded fraction of day
 are not refused

---
 src/sp3c.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 9eb8c71..7c770e7 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -152,7 +152,8 @@ int Sp3c::read_header() noexcept {
   }
   sec = std::strtod(line + 45, &str_end);
   sec += mjd;
-  if (sec != start_epoch__.as_mjd()) {
+  // the fraction is written with 13 decimals; a microsecond is 1.2e-11 days
+  if (!(std::abs(sec - start_epoch__.as_mjd()) < 1e-11)) {
     std::cerr << "\n[ERROR] Sp3c::read_header() Failed to validate start date";
     return 24;
   }
-- 
2.43.0


From 732b85aa3d7b74c31858d8f08cff491898ec2dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 19/69] fix: the Sp3 predicted-orbit flag is the letter P

---
 src/sp3c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 7c770e7..995d392 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -382,7 +382,7 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
     flag.set(Sp3Event::clock_prediction);
   if (line[78] == 'M')
     flag.set(Sp3Event::maneuver);
-  if (line[79] == 'E')
+  if (line[79] == 'P')
     flag.set(Sp3Event::orbit_prediction);
 
   return 0;
-- 
2.43.0


From ee874cdcb2a56f30af63a5b5d4f3550672ab5c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 20/69] fix: more Sp3 records in an epoch than announced are an
 error, not an overflow

---
 src/sp3c.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 995d392..50e85a2 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -309,6 +309,8 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
       if (*line == 'P') { /* position and clock line */
         if ((j = get_next_position(line, sys, prn, state, flag)))
           return j + 20;
+        if (it == vec.end()) /* more satellites than announced */
+          return 4;
         *it = Sp3EpochSvRecord{sys, prn, state, flag};
         ++it;
       } else if (!std::strncmp(line, "EOF", 3)) { /* EOF */
-- 
2.43.0


From 18f9ee15826e4baed5e043912efc5b9bb982c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 21/69] fix: impossible dates and counts in an Sp3 file are
 errors, they do not terminate

---
 src/sp3c.cpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 50e85a2..584b0e1 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -120,10 +120,16 @@ int Sp3c::read_header() noexcept {
   agency__ = std::string(line + 56, 3);
 
   // all done for first line, construct the reference date
-  start_epoch__ = ngpt::datetime<ngpt::microseconds>(
-      ngpt::year(year), ngpt::month(month), ngpt::day_of_month(dom),
-      ngpt::hours(hour), ngpt::minutes(minute),
-      ngpt::microseconds(std::lround(sec * 1e6)));
+  if (!(std::abs(sec) < 1e5))
+    return 17;
+  try {
+    start_epoch__ = ngpt::datetime<ngpt::microseconds>(
+        ngpt::year(year), ngpt::month(month), ngpt::day_of_month(dom),
+        ngpt::hours(hour), ngpt::minutes(minute),
+        ngpt::microseconds(std::lround(sec * 1e6)));
+  } catch (std::exception &) { // not a calendar date
+    return 18;
+  }
 
   // Read the second line. Error codes [20,30)
   // ------------------------------------------------------------
@@ -144,6 +150,8 @@ int Sp3c::read_header() noexcept {
     return 22;
   }
   sec = std::strtod(line + 24, &str_end);
+  if (!(std::abs(sec) < 1e12))
+    return 25;
   interval__ = ngpt::microseconds(std::lround(sec * 1e6));
   int mjd = std::strtol(line + 39, &str_end, 10);
   if (!mjd || errno == ERANGE) {
@@ -167,7 +175,7 @@ int Sp3c::read_header() noexcept {
   if (*line != '+' || line[1] != ' ')
     return 30;
   num_sats__ = std::strtol(line + 3, &str_end, 10);
-  if (!num_sats__ || errno == ERANGE) {
+  if (num_sats__ < 1 || errno == ERANGE) {
     errno = 0;
     return 31;
   }
@@ -282,10 +290,16 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
     return 11;
   }
 
-  t = ngpt::datetime<ngpt::microseconds>(
-      ngpt::year(date[0]), ngpt::month(date[1]), ngpt::day_of_month(date[2]),
-      ngpt::hours(date[3]), ngpt::minutes(date[4]),
-      ngpt::microseconds(std::lround(fsec * 1e6)));
+  if (!(std::abs(fsec) < 1e5))
+    return 12;
+  try {
+    t = ngpt::datetime<ngpt::microseconds>(
+        ngpt::year(date[0]), ngpt::month(date[1]), ngpt::day_of_month(date[2]),
+        ngpt::hours(date[3]), ngpt::minutes(date[4]),
+        ngpt::microseconds(std::lround(fsec * 1e6)));
+  } catch (std::exception &) { // not a calendar date
+    return 13;
+  }
 
   ngpt::SATELLITE_SYSTEM sys;
   int prn, j = 0;
-- 
2.43.0


From f91ed89035d7ecf1f25ca2ea7c826470378d4c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 22/69] fix: the Sp3 agency has four columns

---
 src/sp3c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 584b0e1..b38039b 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -117,7 +117,7 @@ int Sp3c::read_header() noexcept {
   }
   crd_sys__ = std::string(line + 46, 5);
   orb_type__ = std::string(line + 52, 3);
-  agency__ = std::string(line + 56, 3);
+  agency__ = std::string(line + 56, 4);
 
   // all done for first line, construct the reference date
   if (!(std::abs(sec) < 1e5))
-- 
2.43.0


From 4d7f9d8e35a65bb2ff749203e75de3632ba5e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 23/69] fix: the number of Sp3 satellites is read from its own
 columns

---
 src/sp3c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index b38039b..87446f3 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -174,7 +174,7 @@ int Sp3c::read_header() noexcept {
   next_line(__istream, line);
   if (*line != '+' || line[1] != ' ')
     return 30;
-  num_sats__ = std::strtol(line + 3, &str_end, 10);
+  num_sats__ = std::strtol(std::string(line + 3, 3).c_str(), nullptr, 10);
   if (num_sats__ < 1 || errno == ERANGE) {
     errno = 0;
     return 31;
-- 
2.43.0


From 2f6675e1652b35e4dd07ec1577943f20e1443d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 24/69] fix: Sp3 positions and clocks are read from their own
 columns

---
 src/sp3c.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 87446f3..0bcfbd9 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -1,5 +1,6 @@
 #include "sp3c.hpp"
 #include "ggdatetime/datetime_read.hpp"
+#include "nvarstr.hpp"
 #include <algorithm>
 #include <cerrno>
 #include <cmath>
@@ -355,7 +356,8 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
 int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
                             std::array<double, 4> &state,
                             Sp3Flag &flag) noexcept {
-  char *end, *start;
+  char *end;
+  const char *start;
   flag.reset();
 
   if (*line != 'P')
@@ -374,12 +376,10 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
 
   start = line + 4;
   for (int i = 0; i < 4; i++) {
-    state[i] = std::strtod(start, &end);
-    if (errno == ERANGE || end == start) {
+    if (!ngpt::__column2double__<14>(start, state[i]) || errno == ERANGE) {
       errno = 0;
       return 5 + i;
     }
-    start += 14;
   }
 
   state[0] *= 1e3;
-- 
2.43.0


From b900deef653b13f44f8ee658cdb087451c10d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 25/69] fix: navigation reading looks at no stale columns and
 ends with the file, not after 1000 header lines

---
 src/navrnx.cpp | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index f8b6c8b..08c126e 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -5,6 +5,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
+#include <limits>
 #include <stdexcept>
 
 using ngpt::NavDataFrame;
@@ -14,9 +15,6 @@ using ngpt::NavigationRnx;
 /// they  exceed this limit, just a bit ...
 constexpr int MAX_HEADER_CHARS{85};
 
-/// Max header lines.
-constexpr int MAX_HEADER_LINES{1000};
-
 /// Max record characters (for a navigation data block)
 constexpr int MAX_RECORD_CHARS{128};
 
@@ -30,6 +28,21 @@ const std::size_t eoh_size{std::strlen("END OF HEADER")};
 constexpr std::size_t eoh_size{std::strlen("END OF HEADER")};
 #endif
 
+/// @brief Read the next line of a navigation stream into a c-string.
+/// The buffer is filled with '\0' past the line's end, so that any column of
+/// it can be inspected, even if the line read (if any) was shorter. Lines that
+/// do not fit are cut; the rest of such lines is skipped.
+/// @return False if there was no line to read (i.e. EOF or a failed stream)
+template <std::size_t N>
+static bool next_line(std::ifstream &fin, char (&line)[N]) noexcept {
+  std::memset(line, '\0', N);
+  if (!fin.getline(line, N) && !fin.eof() && !fin.bad() && fin.gcount()) {
+    fin.clear();
+    fin.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+  }
+  return static_cast<bool>(fin);
+}
+
 /// @brief Navigation data block lines per satellite system
 /// @param[in]  s SATELLITE_SYSTEM
 /// @param[out] records_in_last_line Number of records that the last line holds.
@@ -84,7 +97,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
 
   // Read the first line.
   // ------------------------------------------------------------
-  if (!inp.getline(line, MAX_RECORD_CHARS)) {
+  if (!next_line(inp, line)) {
     return 1;
   }
   sys__ = ngpt::char_to_satsys(*line);
@@ -110,7 +123,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   // read all but the last line (** all but galileo or beidou **)
   if (sys__ != SATELLITE_SYSTEM::galileo && sys__ != SATELLITE_SYSTEM::beidou) {
     for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!inp.getline(line, MAX_RECORD_CHARS)) {
+      if (!next_line(inp, line)) {
         return 5;
       }
       // replace 'D' or 'd' with 'e'
@@ -123,7 +136,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
     }
   } else { // galileo and beidou have an empty record in line #5
     for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!inp.getline(line, MAX_RECORD_CHARS)) {
+      if (!next_line(inp, line)) {
         return 5;
       }
       // replace 'D' or 'd' with 'e'
@@ -144,7 +157,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   }
 
   // read last line
-  if (!inp.getline(line, MAX_RECORD_CHARS)) {
+  if (!next_line(inp, line)) {
     return 7;
   }
   // replace 'D' or 'd' with 'e'
@@ -215,7 +228,7 @@ int NavigationRnx::read_header() noexcept {
 
   // Read the first line. Get version, data-type and sat. system.
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line);
   __version = std::strtof(line, &str_end);
   if (str_end == line)
     return 10; // transformation to float has failed
@@ -229,16 +242,10 @@ int NavigationRnx::read_header() noexcept {
 
   // Keep on readling lines until 'END OF HEADER'.
   // ----------------------------------------------------
-  int dummy_it = 0;
-  __istream.getline(line, MAX_HEADER_CHARS);
-  while (dummy_it < MAX_HEADER_LINES &&
-         std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
-    dummy_it++;
-  }
-  if (dummy_it >= MAX_HEADER_LINES) {
-    return 20;
-  }
+  do {
+    if (!next_line(__istream, line))
+      return 20;
+  } while (std::strncmp(line + 60, "END OF HEADER", eoh_size));
 
   // Mark the end of header
   __end_of_head = __istream.tellg();
@@ -297,7 +304,7 @@ int NavigationRnx::ignore_next_block() noexcept {
   int lines_in_block = __lines_per_satsys_v3__(sys, last_line_recs);
   // read and skip lines
   for (int ln = 0; ln < lines_in_block; ln++) {
-    if (!__istream.getline(line, MAX_RECORD_CHARS)) {
+    if (!next_line(__istream, line)) {
       return 2;
     }
   }
-- 
2.43.0


From 5a5534ffe677a8672d61ffbccbad228dbbefb756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 26/69] fix: navigation messages with an unreadable system,
 satellite or date are errors, they do not terminate

---
 src/navrnx.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 08c126e..7ff73a9 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -84,8 +84,6 @@ int __lines_per_satsys_v3__(ngpt::SATELLITE_SYSTEM s,
 /// @param[in] inp Input file (nav RINEX v3) stream, placed before (aka first
 ///                line to be read is:) "SV/ EPOCH / SV CLK"
 /// @return    Anything other than 0 denotes an error.
-/// @todo the line toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line+3); may
-/// throw! what can i do about this?
 int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   char line[MAX_RECORD_CHARS];
   char *str_end;
@@ -100,11 +98,17 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   if (!next_line(inp, line)) {
     return 1;
   }
-  sys__ = ngpt::char_to_satsys(*line);
-  toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 3);
-  prn__ = std::strtol(line + 1, &str_end, 10);
-  if (!prn__ || errno == ERANGE) {
-    errno = 0;
+  // columns 4-23 hold the date, columns 2-3 the satellite number
+  const char prn[] = {line[1], line[2], '\0'};
+  const std::string date(line + 3, strnlen(line + 3, 20));
+  try {
+    sys__ = ngpt::char_to_satsys(*line);
+    toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(date.c_str());
+  } catch (std::exception &) {
+    return 9;
+  }
+  prn__ = std::strtol(prn, &str_end, 10);
+  if (prn__ <= 0) {
     return 2;
   }
   // replace 'D' or 'd' with 'e' in remaining floats
-- 
2.43.0


From 79430d992d249fd0b63cce3f2a8cf8449f2868cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 27/69] fix: navigation files can be rewound after their end,
 and byte 255 is not the end of one

---
 src/navrnx.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 7ff73a9..0291338 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -292,7 +292,7 @@ int NavigationRnx::ignore_next_block() noexcept {
   if (!__istream.good())
     return 50;
 #endif
-  char s = __istream.peek();
+  const int s = __istream.peek();
   if (s == EOF)
     return clear_stream(-1);
 
@@ -330,7 +330,7 @@ ngpt::SATELLITE_SYSTEM NavigationRnx::peak_satsys(int &status) noexcept {
   }
 #endif
   status = 0;
-  char s = __istream.peek();
+  const int s = __istream.peek();
   if (s == EOF) {
     status = clear_stream(-1);
     return SATELLITE_SYSTEM::mixed;
@@ -347,6 +347,7 @@ ngpt::SATELLITE_SYSTEM NavigationRnx::peak_satsys(int &status) noexcept {
 /// @details Set the nav RINEX stream to end of header, ready to restart
 ///          reading nav data blocks
 void NavigationRnx::rewind(pos_type pos) noexcept {
+  __istream.clear();
   if (pos == pos_type(-1)) {
     __istream.seekg(__end_of_head);
   } else {
-- 
2.43.0


From ad2bab2beaf020e0deddec8d8e6d9c81fc3fdec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 28/69] fix: positions handed out by a navigation file are
 valid at its end too

---
 src/navrnx.cpp | 21 +++++++++++++++------
 src/navrnx.hpp |  7 +++++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 0291338..9de919d 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -252,7 +252,7 @@ int NavigationRnx::read_header() noexcept {
   } while (std::strncmp(line + 60, "END OF HEADER", eoh_size));
 
   // Mark the end of header
-  __end_of_head = __istream.tellg();
+  __end_of_head = tell();
 
   // All done !
   return 0;
@@ -266,7 +266,7 @@ int NavigationRnx::read_header() noexcept {
 ///           > 0 Error; block not resolved
 int NavigationRnx::read_next_record(NavDataFrame &nav) noexcept {
 #ifdef DEBUG
-  if (!__istream.good())
+  if (__istream.fail())
     return 50;
 #endif
   int c;
@@ -289,7 +289,7 @@ int NavigationRnx::read_next_record(NavDataFrame &nav) noexcept {
 ///           > 0 Error; satellite system not resolved
 int NavigationRnx::ignore_next_block() noexcept {
 #ifdef DEBUG
-  if (!__istream.good())
+  if (__istream.fail())
     return 50;
 #endif
   const int s = __istream.peek();
@@ -324,7 +324,7 @@ int NavigationRnx::ignore_next_block() noexcept {
 ///           > 0 Error; satellite system not resolved
 ngpt::SATELLITE_SYSTEM NavigationRnx::peak_satsys(int &status) noexcept {
 #ifdef DEBUG
-  if (!__istream.good()) {
+  if (__istream.fail()) {
     status = 10;
     return SATELLITE_SYSTEM::mixed;
   }
@@ -371,10 +371,10 @@ void NavigationRnx::rewind(pos_type pos) noexcept {
 int NavigationRnx::find_next(pos_type &curpos, NavDataFrame &frame,
                              SATELLITE_SYSTEM sys, int prn) noexcept {
 #ifdef DEBUG
-  if (!__istream.good())
+  if (__istream.fail())
     return 50;
 #endif
-  curpos = __istream.tellg();
+  curpos = tell();
   int status = 0, dummy_it = 0;
   SATELLITE_SYSTEM csys;
   do {
@@ -395,6 +395,15 @@ int NavigationRnx::find_next(pos_type &curpos, NavDataFrame &frame,
   return 100;
 }
 
+/// Current position of the instance's stream. If the last line read ended with
+/// the file (aka without a newline) eofbit is set; tellg() would then fail, so
+/// clear it first.
+NavigationRnx::pos_type NavigationRnx::tell() noexcept {
+  if (__istream.eof() && !__istream.fail())
+    __istream.clear();
+  return __istream.tellg();
+}
+
 /// Clear the instance's stream (failbit and eofbit) and return the input
 /// parameter exit_status
 /// @param[in] exit_status What the function returns
diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 2a748e5..a35aa4b 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -641,10 +641,10 @@ public:
     // std::cout<<"\n$$$[DEBUG] Updating msg for
     // t="<<ngpt::strftime_ymd_hms<ngpt::milliseconds>(t);
 #ifdef DEBUG
-    if (!__istream.good())
+    if (__istream.fail())
       return 50;
 #endif
-    curpos = __istream.tellg();
+    curpos = tell();
     int status = 0, dummy_it = 0;
     SATELLITE_SYSTEM csys;
     do {
@@ -704,6 +704,9 @@ private:
   /// @brief clear the instance stream and return the exit_status
   int clear_stream(int exit_status) noexcept;
 
+  /// @brief current position of the stream, also at the end of the file
+  pos_type tell() noexcept;
+
   std::string __filename;    ///< The name of the file
   std::ifstream __istream;   ///< The infput (file) stream
   SATELLITE_SYSTEM __satsys; ///< satellite system
-- 
2.43.0


From 4a377c4b3b8a1053b932b0ec7e13cb49f27d431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 29/69] fix: BeiDou and IRNSS messages with blank spare fields
 are read

---
 src/navrnx.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 9de919d..7bc5b09 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -1,6 +1,7 @@
 #include "navrnx.hpp"
 #include "ggdatetime/datetime_read.hpp"
 #include "nvarstr.hpp"
+#include <algorithm>
 #include <cerrno>
 #include <cstdlib>
 #include <cstring>
@@ -76,6 +77,29 @@ int __lines_per_satsys_v3__(ngpt::SATELLITE_SYSTEM s,
   return lines_to_read;
 }
 
+/// @brief Write a zero to the spare fields of a BROADCAST ORBIT line that are
+///        left blank.
+/// @param[in]     s    SATELLITE_SYSTEM
+/// @param[in]     ln   Number of the BROADCAST ORBIT line, starting at 0
+/// @param[in,out] line The line; '\0' past its end
+static void __fill_spares__(ngpt::SATELLITE_SYSTEM s, int ln,
+                            char (&line)[MAX_RECORD_CHARS]) noexcept {
+  using ngpt::SATELLITE_SYSTEM;
+
+  const bool bds = s == SATELLITE_SYSTEM::beidou;
+  const bool irn = s == SATELLITE_SYSTEM::irnss;
+  for (int field = 0; field < 4; field++) {
+    if (!((ln == 4 && field == 1 && (bds || irn)) ||
+          (ln == 4 && field == 3 && irn) || (ln == 5 && field == 3 && irn)))
+      continue;
+    char *end = line + 4 + (field + 1) * 19;
+    if (ngpt::string_is_empty(end - 19, 19)) {
+      std::replace(line, end, '\0', ' ');
+      *(end - 1) = '0';
+    }
+  }
+}
+
 /// @details: Resolve a Nav. RINEX v3.x data block to a NavDataFrame. The
 ///           function expect that the first line to be read is:
 ///           "SV/ EPOCH / SV CLK". Depending on the satellite system (to be
@@ -132,6 +156,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
       }
       // replace 'D' or 'd' with 'e'
       __for2cpp__(line);
+      __fill_spares__(sys__, ln, line);
       // read 4 doubles into data__
       if (!__char2double__<4, 19>(line + 4, data__ + 3 + ln * 4)) {
         errno = 0;
@@ -145,6 +170,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
       }
       // replace 'D' or 'd' with 'e'
       __for2cpp__(line);
+      __fill_spares__(sys__, ln, line);
       // read 4 doubles into data__
       if (ln != 4) {
         if (!__char2double__<4, 19>(line + 4, data__ + 3 + ln * 4)) {
-- 
2.43.0


From 9132bda569ee709ae733fd286b05201ce00b7bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 30/69] fix: GLONASS message frame times across a week boundary
 belong to the nearest week

---
 src/navrnx.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index a35aa4b..ee56ce2 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -527,6 +527,11 @@ private:
 #endif
     // days difference (if any)
     int offset = dw_toc - dw_toe;
+    // ToC and ToE may be on different sides of the start of a week
+    if (offset > 3)
+      offset -= 7;
+    else if (offset < -3)
+      offset += 7;
     // seconds of day (for ToE)
     long sd_toe = sw_toe % 86400L;
 #ifdef DEBUG
-- 
2.43.0


From 14d4a369ea64631c309c4152c509fa10f31575c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 31/69] fix: a navigation message holds no fields of the
 message decoded before into the same object

---
 src/navrnx.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 7bc5b09..e597fce 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -117,6 +117,9 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
     return 50;
 #endif
 
+  // nothing of a message previously held may remain
+  *this = NavDataFrame();
+
   // Read the first line.
   // ------------------------------------------------------------
   if (!next_line(inp, line)) {
-- 
2.43.0


From 4753e1dc4b20e9106eb18dd4a2b7b70af9708e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 32/69] fix: find_next_valid takes -1 for any satellite of a
 system, as documented

---
 src/navrnx.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index ee56ce2..88ec7c9 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -659,7 +659,7 @@ public:
       if (csys == sys) {
         if ((status = this->read_next_record(frame)))
           return clear_stream(status);
-        if (prn == frame.prn()) {
+        if (prn == -1 || prn == frame.prn()) {
           auto toc = frame.toc<milliseconds>();
           // std::cout<<" found msg with ToC
           // "<<ngpt::strftime_ymd_hms<ngpt::milliseconds>(toc); are we too far
-- 
2.43.0


From feb8699bcd8f4424abcba85826271fe13abc2985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 33/69] fix: the relativistic clock term uses the time since
 the ephemeris, not the clock epoch

---
 src/navrnx.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 88ec7c9..bb298d8 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -407,12 +407,19 @@ private:
 
     double Ek(0e0);
     if (!Ein) {
+      // Time from ToE (not ToC), at which mean anomaly is referenced
+      const double tk =
+          dt +
+          86400e0 * static_cast<double>(toc__.mjd().as_underlying_type() -
+                                        toe__.mjd().as_underlying_type()) +
+          (toc__.sec().to_fractional_seconds() -
+           toe__.sec().to_fractional_seconds());
       // Solve (iteratively) Kepler's equation for Ek
       double A(data__[10] * data__[10]); //  Semi-major axis
       double n0(
           std::sqrt(MI_SYS / (A * A * A))); //  Computed mean motion (rad/sec)
       double n(n0 + data__[5]);             //  Corrected mean motion
-      double Mk(data__[6] + n * dt);        //  Mean anomaly
+      double Mk(data__[6] + n * tk);        //  Mean anomaly
       double E(Mk);
       double e(data__[8]);
       int i;
-- 
2.43.0


From 03a5ae0ece4b337e05b54e6e6169bbb270ec0e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 34/69] fix: the GLONASS integration ends at the requested
 epoch, not up to a minute past it

---
 src/glonav.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glonav.cpp b/src/glonav.cpp
index 44614b0..3db6fa9 100644
--- a/src/glonav.cpp
+++ b/src/glonav.cpp
@@ -320,7 +320,10 @@ int NavDataFrame::glo_ecef(double t_sec, double *state) const noexcept {
   std::copy(x, x + 6, yti);
   // Perform Runge-Kutta 4th
   // while (std::abs(ti-t_lim)>1e-9 && ++max_it<1500) {
-  while (h > 0 ? ti < t_lim : ti > t_lim && ++max_it < 1500) {
+  while ((h > 0 ? ti < t_lim : ti > t_lim) && ++max_it < 1500) {
+    // the last step ends at t_lim, not past it
+    if (std::abs(t_lim - ti) < h_step)
+      h = t_lim - ti;
     // compute k1
     glo_state_deriv(yti, acc, k1);
     // compute k2
-- 
2.43.0


From cf574722cc2301ac0f38416fa92c2747646bb0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 35/69] fix: observation header reading looks at no stale
 columns, misses no line and ends with the file

---
 src/obsrnx.cpp | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index ef2740a..7d1f2ba 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -6,6 +6,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
+#include <limits>
 #include <stdexcept>
 
 using ngpt::ObservationRnx;
@@ -15,9 +16,6 @@ using ngpt::RawRnxObs__;
 /// they  exceed this limit, just a bit ...
 constexpr int MAX_HEADER_CHARS{85};
 
-/// Max header lines.
-constexpr int MAX_HEADER_LINES{1000};
-
 /// Max satellites in eopch
 constexpr int MAX_SAT_IN_EPOCH{80};
 
@@ -31,6 +29,19 @@ const std::size_t eoh_size{std::strlen("END OF HEADER")};
 constexpr std::size_t eoh_size{std::strlen("END OF HEADER")};
 #endif
 
+/// @brief Read the next line off from a stream, into a buffer of size N.
+/// The buffer is filled with '\0' past the end of the line; a line that does
+/// not fit is cut, and its remaining characters are skipped.
+/// @return False if no (more) lines can be read
+static bool next_line(std::ifstream &fin, char *line, std::size_t N) noexcept {
+  std::memset(line, '\0', N);
+  if (!fin.getline(line, N) && !fin.eof() && !fin.bad() && fin.gcount()) {
+    fin.clear();
+    fin.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+  }
+  return static_cast<bool>(fin);
+}
+
 /// Resolve a RINEX observation using the relative string; this string, of type:
 /// (F14.3 I1 I1) is resolved as:
 /// F14.3 -> the actual value of the observation (if empty use the
@@ -173,7 +184,8 @@ int ObservationRnx::read_header() noexcept {
 
   // Read the first line. Get version, data-type and sat. system.
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  if (!next_line(__istream, line, MAX_HEADER_CHARS))
+    return 10;
   __version = std::strtof(line, &str_end);
   if (str_end == line)
     return 10; // transformation to float has failed
@@ -187,13 +199,11 @@ int ObservationRnx::read_header() noexcept {
 
   // Keep on readling and collecting info until 'END OF HEADER'.
   // ----------------------------------------------------
-  int dummy_it = 0;
   std::size_t szt;
   char *end;
-  __istream.getline(line, MAX_HEADER_CHARS);
-  while (dummy_it < MAX_HEADER_LINES &&
-         std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+  do {
+    if (!next_line(__istream, line, MAX_HEADER_CHARS))
+      return 20;
     if (!std::strncmp(line + 60, "MARKER NAME", std::strlen("MARKER NAME"))) {
       __marker_name = ngpt::rtrim(line, szt, 60);
     } else if (!std::strncmp(line + 60, "MARKER NUMBER",
@@ -253,13 +263,11 @@ int ObservationRnx::read_header() noexcept {
         return 61;
       }
     }
-    dummy_it++;
-  }
-  if (dummy_it >= MAX_HEADER_LINES) {
-    return 20;
-  }
+  } while (std::strncmp(line + 60, "END OF HEADER", eoh_size));
 
-  // Mark the end of header
+  // Mark the end of header; the stream has met EOF if nothing follows it, and
+  // would not tell
+  __istream.clear();
   __end_of_head = __istream.tellg();
 
   // All done !
@@ -320,8 +328,8 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     ++resolved;
     ++vecsz;
     if (resolved == 13) {
-      __istream.getline(line, MAX_HEADER_CHARS);
-      if (std::strncmp(line + 60, "SYS / # / OBS TYPES",
+      if (!next_line(__istream, line, MAX_HEADER_CHARS) ||
+          std::strncmp(line + 60, "SYS / # / OBS TYPES",
                        std::strlen("SYS / # / OBS TYPES"))) {
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
                      "resolve field: \"SYS / # / OBS TYPES\"";
-- 
2.43.0


From 496ff5838e279d7f70226de7f0ad556fd4e1f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 36/69] fix: names in an observation header are not cut at
 their first blank

---
 src/obsrnx.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 7d1f2ba..80a9203 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -9,6 +9,7 @@
 #include <limits>
 #include <stdexcept>
 
+using ngpt::str_algorithm_details::StrSearchPolicyEnd;
 using ngpt::ObservationRnx;
 using ngpt::RawRnxObs__;
 
@@ -205,17 +206,17 @@ int ObservationRnx::read_header() noexcept {
     if (!next_line(__istream, line, MAX_HEADER_CHARS))
       return 20;
     if (!std::strncmp(line + 60, "MARKER NAME", std::strlen("MARKER NAME"))) {
-      __marker_name = ngpt::rtrim(line, szt, 60);
+      __marker_name = ngpt::rtrim<StrSearchPolicyEnd>(line, szt, 60);
     } else if (!std::strncmp(line + 60, "MARKER NUMBER",
                              std::strlen("MARKER NUMBER"))) {
-      __marker_number = ngpt::rtrim(line, szt, 20);
+      __marker_number = ngpt::rtrim<StrSearchPolicyEnd>(line, szt, 20);
     } else if (!std::strncmp(line + 60, "REC # / TYPE / VERS",
                              std::strlen("REC # / TYPE / VERS"))) {
-      __receiver_number = ngpt::rtrim(line, szt, 20);
-      __receiver_type = ngpt::rtrim(line + 20, szt, 20);
+      __receiver_number = ngpt::rtrim<StrSearchPolicyEnd>(line, szt, 20);
+      __receiver_type = ngpt::rtrim<StrSearchPolicyEnd>(line + 20, szt, 20);
     } else if (!std::strncmp(line + 60, "ANT # / TYPE",
                              std::strlen("ANT # / TYPE"))) {
-      ReceiverAntenna ant(ngpt::rtrim(line + 20, szt, 20));
+      ReceiverAntenna ant(ngpt::rtrim<StrSearchPolicyEnd>(line + 20, szt, 20));
       if (!ngpt::string_is_empty(line, 20))
         ant.set_serial_nr(line);
       __antenna = ant;
-- 
2.43.0


From b509b3fb888616405b18ca51f7eb3166996b3780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 37/69] fix: 13, 26, ... observation types need no continuation
 line, an unknown system is an error

---
 src/obsrnx.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 80a9203..08982e6 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -298,7 +298,15 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
 
   char *end;
   std::vector<ngpt::ObservationCode> obsvec;
-  auto satsys = ngpt::char_to_satsys(line[0]);
+  SATELLITE_SYSTEM satsys;
+  try {
+    satsys = ngpt::char_to_satsys(line[0]);
+  } catch (std::runtime_error &e) {
+    std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to resolve "
+                 "field: \"SYS / # / OBS TYPES\"";
+    std::cerr << "\n        Fatal; unknown satellite system!";
+    return 5;
+  }
   if (__obstmap.find(satsys) != __obstmap.end()) {
     std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to resolve "
                  "field: \"SYS / # / OBS TYPES\"";
@@ -328,7 +336,7 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     }
     ++resolved;
     ++vecsz;
-    if (resolved == 13) {
+    if (resolved == 13 && vecsz < obsnum) {
       if (!next_line(__istream, line, MAX_HEADER_CHARS) ||
           std::strncmp(line + 60, "SYS / # / OBS TYPES",
                        std::strlen("SYS / # / OBS TYPES"))) {
-- 
2.43.0


From 80c3a63bb0d3e1cfa3533f2485a75e0822d87393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 38/69] fix: observation headers do not fail on a leftover
 errno, garbage for the clock offset flag is an error

---
 src/obsrnx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 08982e6..7fcdfe6 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -240,8 +240,10 @@ int ObservationRnx::read_header() noexcept {
         return szt;
     } else if (!std::strncmp(line + 60, "RCV CLOCK OFFS APPL",
                              std::strlen("RCV CLOCK OFFS APPL"))) {
+      errno = 0;
       int i = std::strtol(line, &end, 10);
-      if ((errno || (line + 3) == end) || (i != 0 && i != 1)) {
+      if ((errno || (line == end && !ngpt::string_is_empty(line, 6))) ||
+          (i != 0 && i != 1)) {
         errno = 0;
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
                      "resolve field: \"RCV CLOCK OFFS APPL\"";
@@ -313,6 +315,7 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     std::cerr << "\n        Fatal Already resolved this satellite system!";
     return 1;
   }
+  errno = 0;
   int obsnum = std::strtol(line + 3, &end, 10);
   if (errno || (line + 3) == end) {
     errno = 0;
-- 
2.43.0


From f30333846b5894714750b7b49c3d4f13dd61aa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 39/69] fix: an impossible time of first observation is an
 error, it does not terminate

---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 7fcdfe6..f81b920 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -261,7 +261,7 @@ int ObservationRnx::read_header() noexcept {
                              std::strlen("TIME OF FIRST OBS"))) {
       try {
         __epoch_start = ngpt::strptime_ymd_hms<ngpt::microseconds>(line);
-      } catch (std::invalid_argument &e) {
+      } catch (std::exception &e) {
         std::cerr << "\n[ERROR] " << e.what();
         return 61;
       }
-- 
2.43.0


From 97b4637c3a95981d7fb8c02007ef7d2c68d97675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 40/69] fix: loss-of-lock and signal-strength digits are no
 part of an observation value

---
 src/obsrnx.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index f81b920..905d44c 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -66,12 +66,19 @@ static bool next_line(std::ifstream &fin, char *line, std::size_t N) noexcept {
 ///                any of the ints can be blank)
 int RawRnxObs__::resolve(char *str) noexcept {
   char *end;
+  __lli = __ssi = 0;
   if (string_is_empty(str, 14)) {
     __val = RNXOBS_MISSING_VAL;
     return 0;
   }
-  __val = std::strtod(str, &end);
-  if (errno || str == end) {
+  // the indicators follow the value without any delimeter; they are no part of
+  // the number
+  char value[15];
+  std::memcpy(value, str, 14);
+  value[14] = '\0';
+  errno = 0;
+  __val = std::strtod(value, &end);
+  if (errno || value == end) {
     errno = 0;
     return 1;
   }
@@ -782,6 +789,7 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
 
   std::memset(tbuf, '\0', 17);
   std::memcpy(tbuf, __buf + 1, 2);
+  errno = 0;
   prn = std::strtol(tbuf, &end, 10);
   if ((errno || tbuf == end) || (prn < 1 || prn > 99))
     return 1;
-- 
2.43.0


From 1b4dbdf16384946e83b6790b999a4971fbff9b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 41/69] fix: an observable with a missing part is missing,
 whatever the order; trimmed lines keep their last value

---
 src/obsrnx.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 905d44c..81af556 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -799,23 +799,27 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
   std::size_t len = std::strlen(__buf);
   for (const auto &obsrv : sysobs) { // For every observable in vector
     double obsval = 0e0;
+    bool missing = false; // any of the raw obs. missing ?
     for (const auto &pr : obsrv) { // for every raw obs. in observable
       std::size_t idx = pr.first * 16 + 3;
-      if (len >= idx + 16) { // line ends before column of observable
-        std::memcpy(tbuf, __buf + idx, 16);
+      if (len > idx) { // else line ends before column of observable
+        // trailing blanks of a line may be left out
+        std::memset(tbuf, ' ', 16);
+        std::memcpy(tbuf, __buf + idx, std::min<std::size_t>(16, len - idx));
         if (raw_obs.resolve(tbuf))
           return 2;
-        if (raw_obs.__val != RNXOBS_MISSING_VAL) {
+        if (!string_is_empty(tbuf, 14)) {
           obsval += raw_obs.__val * pr.second;
         } else {
           --status;
-          obsval = RNXOBS_MISSING_VAL;
+          missing = true;
         }
       } else {
-        raw_obs.__val = obsval = RNXOBS_MISSING_VAL;
+        --status;
+        missing = true;
       }
     }
-    vals[k] = obsval;
+    vals[k] = missing ? RNXOBS_MISSING_VAL : obsval;
     ++k;
   }
 
-- 
2.43.0


From ca4c3d3eb86128a665dcca56051a8674dae67fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 42/69] fix: the last epoch of a file is delivered, lines are
 read whatever their length, files can be rewound after their end

---
 src/obsrnx.cpp | 12 ++++++++----
 src/obsrnx.hpp |  7 +++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 81af556..bf79b85 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -108,7 +108,8 @@ ObservationRnx::ObservationRnx(const char *filename)
         std::to_string(j));
   }
   std::size_t maxobs = this->max_obs();
-  __buf_sz = maxobs * 16 + 4;
+  // (at least) long enough for an epoch line
+  __buf_sz = std::max<std::size_t>(maxobs * 16 + 4, MAX_HEADER_CHARS);
   __buf = new char[__buf_sz];
 }
 
@@ -890,7 +891,8 @@ int ObservationRnx::collect_epoch(
   // loop through every satellite in epoch
   while (sat_it < numsats) {
     // resolve satellite system
-    __istream.getline(__buf, __buf_sz);
+    if (!next_line(__istream, __buf, __buf_sz))
+      return 2;
     try {
       s = char_to_satsys(*__buf);
     } catch (std::exception &e) {
@@ -969,7 +971,8 @@ int ObservationRnx::read_next_epoch(
   sats = 0;
   if ((c = __istream.peek()) != EOF) {
     // if not EOF, read next line; it should be an epoche header line
-    __istream.getline(__buf, __buf_sz);
+    if (!next_line(__istream, __buf, __buf_sz))
+      return 20;
     double rcvr_coff;
     int flag, num_sats;
     // resolve epoch header
@@ -980,7 +983,8 @@ int ObservationRnx::read_next_epoch(
     if ((j = collect_epoch(num_sats, sats, mmap, satobs)))
       return 30 + j;
   }
-  if (__istream.eof()) {
+  // an epoch may well end at EOF; there is none only if nothing was left
+  if (c == EOF) {
     __istream.clear();
     return -1;
   }
diff --git a/src/obsrnx.hpp b/src/obsrnx.hpp
index 996437b..3e5c279 100644
--- a/src/obsrnx.hpp
+++ b/src/obsrnx.hpp
@@ -57,7 +57,10 @@ public:
       std::is_nothrow_move_assignable<std::ifstream>::value) = default;
 
   /// @brief Set the stream to end of header
-  void rewind() noexcept { __istream.seekg(__end_of_head); }
+  void rewind() noexcept {
+    __istream.clear();
+    __istream.seekg(__end_of_head);
+  }
 
   /// @brief Max observables of any satellite system
   int max_obs() const noexcept;
@@ -170,7 +173,7 @@ private:
   ///< with maximum number of observables
   char *__buf{nullptr};
   ///< Length of __buf, aka length of maximum observation
-  ///< line in file (this->max_obs()*16+4)
+  ///< line in file (this->max_obs()*16+4, but never less than a header line)
   std::size_t __buf_sz{0};
 
 }; // ObservationRnx
-- 
2.43.0


From 9ec637e514929cc4c015c3f4679bc6ec62253023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 43/69] fix: more satellites in an epoch than the results can
 hold are an error, not an overflow

---
 src/obsrnx.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index bf79b85..d4e3441 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -906,6 +906,9 @@ int ObservationRnx::collect_epoch(
     int status = 0;
     mmap_it it = mmap.end();
     if ((it = mmap.find(s)) != mmap.end()) {
+      // there may be more satellites than fit in
+      if (ovec_it == satobs.end() || ovec_it->second.size() < it->second.size())
+        return 3;
       if ((status = sat_epoch_collect(mmap[s], prn, ovec_it->second)) > 0)
         return 1;
       Satellite sat(s, prn);
-- 
2.43.0


From cba1f39089b13fccfcf24e25e84059ef5d0a17d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 44/69] fix: observation epochs with an impossible date or
 count are errors, they do not terminate

---
 src/obsrnx.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index d4e3441..561dcf0 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -407,6 +407,7 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   char *end;
   const char *start = cline + 2;
   int dints[5];
+  errno = 0;
   for (int i = 0; i < 5; i++) {
     dints[i] = static_cast<int>(std::strtol(start, &end, 10));
     if (errno || start == end) {
@@ -416,14 +417,21 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
       errno = 0;
       return 2;
     }
-    start = ++end;
+    start = *end ? end + 1 : end;
   }
 #ifdef DEBUG
   day_of_month dom(dints[2]);
   assert(dom.is_valid(year(dints[0]), month(dints[1])));
 #endif
-  mjd = ngpt::modified_julian_day(year(dints[0]), month(dints[1]),
-                                  day_of_month(dints[2]));
+  try {
+    mjd = ngpt::modified_julian_day(year(dints[0]), month(dints[1]),
+                                    day_of_month(dints[2]));
+  } catch (std::exception &) {
+    std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() invalid "
+                 "date";
+    std::cerr << "\n        Line was: \"" << cline << "\"";
+    return 2;
+  }
 
   // resolve seconds of day
   double rsec = std::strtod(start, &end);
@@ -441,7 +449,7 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
 
   // resolve num of satellites in epoch
   num_sats = static_cast<int>(std::strtol(cline + 32, &end, 10));
-  if (errno || start == end) {
+  if (errno || cline + 32 == end) {
     std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed to "
                  "resolve num sats";
     std::cerr << "\n        Line was: \"" << cline << "\"";
@@ -453,7 +461,7 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   if (lnlen > 41) {
     rcvr_coff =
         string_is_empty(cline + 41) ? 0e0 : std::strtod(cline + 41, &end);
-    if (errno || start == end) {
+    if (errno || cline + 41 == end) {
       std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed "
                    "to resolve receiver clock offset";
       std::cerr << "\n        Line was: \"" << cline << "\"";
-- 
2.43.0


From 3d1779bfe14c415a8818d446d4dcb9a2a2c1760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 45/69] fix: special event records in an observation file are
 skipped, not taken for satellites

---
 src/obsrnx.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 561dcf0..9fecd46 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -984,6 +984,15 @@ int ObservationRnx::read_next_epoch(
     // if not EOF, read next line; it should be an epoche header line
     if (!next_line(__istream, __buf, __buf_sz))
       return 20;
+    // special events come with records that are no observations; skip them
+    while (*__buf == '>' && __buf[31] > '1' && __buf[31] <= '6') {
+      long records = std::strtol(__buf + 32, nullptr, 10);
+      for (long k = std::max(records, 0L); k >= 0; k--)
+        if (!next_line(__istream, __buf, __buf_sz)) {
+          __istream.clear();
+          return -1;
+        }
+    }
     double rcvr_coff;
     int flag, num_sats;
     // resolve epoch header
-- 
2.43.0


From cb21f121ce7ac7d23342ccb3197de2b7b7900c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 46/69] fix: a moved observation reader does not share its
 buffer with the source

---
 src/obsrnx.cpp | 44 ++++++++++++++++++++++++++++++++++++++++++++
 src/obsrnx.hpp |  4 ++--
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 9fecd46..111c86d 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -123,6 +123,50 @@ ObservationRnx::~ObservationRnx() noexcept {
   }
 }
 
+/// Move constructor; the buffer goes along with the stream
+ObservationRnx::ObservationRnx(ObservationRnx &&a) noexcept(
+    std::is_nothrow_move_constructible<std::ifstream>::value)
+    : __filename(std::move(a.__filename)), __istream(std::move(a.__istream)),
+      __satsys(a.__satsys), __version(a.__version),
+      __end_of_head(a.__end_of_head), __antenna(a.__antenna),
+      __marker_name(std::move(a.__marker_name)),
+      __marker_number(std::move(a.__marker_number)),
+      __receiver_number(std::move(a.__receiver_number)),
+      __receiver_type(std::move(a.__receiver_type)),
+      __rcv_clk_offs_applied(a.__rcv_clk_offs_applied),
+      __epoch_start(a.__epoch_start), __obstmap(std::move(a.__obstmap)),
+      __buf(a.__buf), __buf_sz(a.__buf_sz) {
+  std::copy(a.__approx, a.__approx + 3, __approx);
+  std::copy(a.__eccentricity, a.__eccentricity + 3, __eccentricity);
+  a.__buf = nullptr;
+  a.__buf_sz = 0;
+}
+
+/// Move assignment operator; the buffers are exchanged
+ObservationRnx &ObservationRnx::operator=(ObservationRnx &&a) noexcept(
+    std::is_nothrow_move_assignable<std::ifstream>::value) {
+  if (this != &a) {
+    __filename = std::move(a.__filename);
+    __istream = std::move(a.__istream);
+    __satsys = a.__satsys;
+    __version = a.__version;
+    __end_of_head = a.__end_of_head;
+    __antenna = a.__antenna;
+    __marker_name = std::move(a.__marker_name);
+    __marker_number = std::move(a.__marker_number);
+    __receiver_number = std::move(a.__receiver_number);
+    __receiver_type = std::move(a.__receiver_type);
+    std::copy(a.__approx, a.__approx + 3, __approx);
+    std::copy(a.__eccentricity, a.__eccentricity + 3, __eccentricity);
+    __rcv_clk_offs_applied = a.__rcv_clk_offs_applied;
+    __epoch_start = a.__epoch_start;
+    __obstmap = std::move(a.__obstmap);
+    std::swap(__buf, a.__buf);
+    std::swap(__buf_sz, a.__buf_sz);
+  }
+  return *this;
+}
+
 /// Loop through the observables of every satellite system, and return the
 /// max number of observables any satellite system can have
 /// Example:
diff --git a/src/obsrnx.hpp b/src/obsrnx.hpp
index 3e5c279..fd04930 100644
--- a/src/obsrnx.hpp
+++ b/src/obsrnx.hpp
@@ -50,11 +50,11 @@ public:
 
   /// @brief Move Constructor.
   ObservationRnx(ObservationRnx &&a) noexcept(
-      std::is_nothrow_move_constructible<std::ifstream>::value) = default;
+      std::is_nothrow_move_constructible<std::ifstream>::value);
 
   /// @brief Move assignment operator.
   ObservationRnx &operator=(ObservationRnx &&a) noexcept(
-      std::is_nothrow_move_assignable<std::ifstream>::value) = default;
+      std::is_nothrow_move_assignable<std::ifstream>::value);
 
   /// @brief Set the stream to end of header
   void rewind() noexcept {
-- 
2.43.0


From c404bae284ab6582c07d4bce48cb6ca4baa001c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 47/69] fix: the observation types of another system are no
 continuation line

---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 111c86d..edbae08 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -392,7 +392,7 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     ++resolved;
     ++vecsz;
     if (resolved == 13 && vecsz < obsnum) {
-      if (!next_line(__istream, line, MAX_HEADER_CHARS) ||
+      if (!next_line(__istream, line, MAX_HEADER_CHARS) || *line != ' ' ||
           std::strncmp(line + 60, "SYS / # / OBS TYPES",
                        std::strlen("SYS / # / OBS TYPES"))) {
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
-- 
2.43.0


From c346f64e66477587e59ccd633b3160cf24888f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 48/69] fix: navigation messages with an impossible week,
 seconds of week, health, issue or fit interval are errors

---
 src/navrnx.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index e597fce..6e6c9ba 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -208,6 +208,26 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
       data__[i] *= 1e3;
   }
 
+  // fields that are used as integers (IOD, seconds of week, week, health and
+  // fit interval) should be small enough to be ones
+  auto too_big = [this](int i) { return !(std::abs(data__[i]) < 1e9); };
+  switch (sys__) {
+  case SATELLITE_SYSTEM::glonass:
+    if (too_big(2) || too_big(6))
+      return 10;
+    break;
+  case SATELLITE_SYSTEM::gps:
+  case SATELLITE_SYSTEM::galileo:
+  case SATELLITE_SYSTEM::beidou:
+    if (too_big(11) || too_big(21) || too_big(24) ||
+        (sys__ == SATELLITE_SYSTEM::galileo && too_big(3)) ||
+        (sys__ == SATELLITE_SYSTEM::gps && too_big(28)))
+      return 10;
+    break;
+  default:
+    break;
+  }
+
   // set ToE
 #ifdef DEBUG
   // assert we don't have fractional seconds!
-- 
2.43.0


From 7d915fbd45b959cd86d09696dc8576cb437bff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 49/69] fix: an epoch can hold as many satellites as its header
 can announce

---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index edbae08..133a742 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -18,7 +18,7 @@ using ngpt::RawRnxObs__;
 constexpr int MAX_HEADER_CHARS{85};
 
 /// Max satellites in eopch
-constexpr int MAX_SAT_IN_EPOCH{80};
+constexpr int MAX_SAT_IN_EPOCH{999};
 
 /// Size of 'END OF HEADER' C-string.
 /// std::strlen is not 'constexr' so eoh_size can't be one either. Note however
-- 
2.43.0


From 29e602f5a28408cd0358697478d5b372b8bf5a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 50/69] fix: scale the predicted pseudorange by the coefficient
 of the filter

The derivatives and the satellite clock were scaled, the prediction itself was not.
---
 src/gauss_newton.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gauss_newton.hpp b/src/gauss_newton.hpp
index 3883bbc..b9fed08 100644
--- a/src/gauss_newton.hpp
+++ b/src/gauss_newton.hpp
@@ -141,9 +141,9 @@ private:
       const double xs = (*sv_)[i][0];
       const double ys = (*sv_)[i][1];
       const double zs = (*sv_)[i][2];
-      p(i) = std::sqrt((xs - xr) * (xs - xr) + (ys - yr) * (ys - yr) +
-                       (zs - zr) * (zs - zr)) +
-             cdt;
+      p(i) = coef * (std::sqrt((xs - xr) * (xs - xr) + (ys - yr) * (ys - yr) +
+                               (zs - zr) * (zs - zr)) +
+                     cdt);
     }
     return p;
   }
-- 
2.43.0


From 8b262696d0a22567b4d8ef0f3c797cd340d0d2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 51/69] fix: read the number of a satellite in an orbit record
 from its two columns

A coordinate that fills all of its columns was taken for part of it.
---
 src/sp3c.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 0bcfbd9..ca8aafc 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -368,8 +368,10 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
   } catch (std::runtime_error &e) {
     return 3;
   }
-  prn = std::strtol(line + 2, &end, 10);
-  if (errno == ERANGE || end == line + 2) {
+  // two columns; a wide x coordinate may follow without a blank
+  const char num[3] = {line[2], line[3], '\0'};
+  prn = std::strtol(num, &end, 10);
+  if (errno == ERANGE || end == num) {
     errno = 0;
     return 4;
   }
-- 
2.43.0


From 7e9906fc9b90622b4bf331ab9539d2ae73896e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 52/69] fix: orbit interpolator writes past its (reserved,
 empty) table and loops on an unset status

LagrangeSp3Interpolator assigned to elements of a vector that was only
reserved, tested an uninitialised status, divided by the interval of the
file even if it is zero, reserved memory by it, and wrote past the table when more
satellites than announced appear.  A second initialize() started from the
leftovers of the first.
---
 src/sp3c.hpp | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/sp3c.hpp b/src/sp3c.hpp
index c3402c6..af77e63 100644
--- a/src/sp3c.hpp
+++ b/src/sp3c.hpp
@@ -133,22 +133,30 @@ private:
 
 template <int SEC> class LagrangeSp3Interpolator {
 public:
-  LagrangeSp3Interpolator(Sp3c &sp3) noexcept
-      : sp3_(&sp3),
-        K((2 * SEC * 1000000L) / sp3_->interval().as_underlying_type() + 1),
-        running_sv(0) {
-    svec_.reserve(sp3_->num_sats());
-    for (int i = 0; i < sp3_->num_sats(); i++) {
-      // svec_.emplace_back(std::vector<Sp3EpochSvRecord>(2*K, {}));
-      svec_[i] = std::vector<Sp3EpochSvRecord>{1, {}};
-      svec_[i].reserve(2 * K);
-    }
-    tvec_.reserve(2 * K);
+  LagrangeSp3Interpolator(Sp3c &sp3)
+      : sp3_(&sp3), K(-1), running_sv(0),
+        svec_(sp3.num_sats(), std::vector<Sp3EpochSvRecord>(1)) {
+    const long step = sp3_->interval().as_underlying_type();
+    if (step > 0) // else, no way to tell how many epochs are needed
+      K = (2L * SEC * 1000000L) / step + 1;
   };
 
+  /// @brief Collect the first K+1 epochs of the Sp3 file
+  /// @return  0: ok
+  ///         <0: EOF encountered before the (K+1)th epoch
+  ///         >0: error; 40 if the Sp3 interval is not a positive number, 41 if
+  ///             there are more satellites than announced in the Sp3 header,
+  ///             else see Sp3c::get_next_epoch
   int initialize() {
     sp3_->rewind();
-    int j, nsats, k = 0;
+    running_sv = 0;
+    tvec_.clear();
+    for (auto &sv : svec_)
+      sv.resize(1);
+    if (K < 0)
+      return 40;
+    int j = 0, nsats;
+    long k = 0;
     ngpt::datetime<ngpt::microseconds> t;
     auto vec = sp3_->allocate_epoch_vector();
     while (!j && k < K + 1) {
@@ -171,6 +179,8 @@ public:
                                    return e[0].s_ == s && e[0].prn_ == prn;
                                  });
           if (it == svec_.begin() + running_sv) {
+            if (it == svec_.end())
+              return 41;
             svec_[running_sv][0] = vec[i];
             ++running_sv;
           } else {
@@ -185,7 +195,8 @@ public:
 
 private:
   Sp3c *sp3_;
-  int K, running_sv;
+  long K;
+  int running_sv;
   std::vector<std::vector<Sp3EpochSvRecord>> svec_;
   std::vector<ngpt::datetime<ngpt::microseconds>> tvec_;
 };
-- 
2.43.0


From 906dddaca7301a73d25cee433dc112f4e637e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:43 +0000
Subject: [PATCH 53/69] fix: skipping a navigation block of no known system
 reports an error

A record that starts with 'M' has no defined length; ignore_next_block()
skipped nothing and reported success, so that find_next() and
find_next_valid() never returned.
---
 src/navrnx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 6e6c9ba..d3c905d 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -355,6 +355,8 @@ int NavigationRnx::ignore_next_block() noexcept {
   char line[MAX_RECORD_CHARS];
   int last_line_recs = 0;
   int lines_in_block = __lines_per_satsys_v3__(sys, last_line_recs);
+  if (lines_in_block < 0)
+    return 1;
   // read and skip lines
   for (int ln = 0; ln < lines_in_block; ln++) {
     if (!next_line(__istream, line)) {
-- 
2.43.0


From 56e1b027ea470f96b8b669c73478227d87c7f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:43 +0000
Subject: [PATCH 54/69] fix: sp3py reads SP3-d headers with 17 or more
 satellites

The '+' and '++' lines were counted as int(n/17) each and taken to
follow one another; the number of satellites lost its hundreds.
---
 var/sp3py.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/var/sp3py.py b/var/sp3py.py
index 92f71c0..2fa379e 100755
--- a/var/sp3py.py
+++ b/var/sp3py.py
@@ -32,7 +32,7 @@ class Sp3:
       interval   = float(line[24:38])
       ## Third line
       line  = fin.readline()
-      num_sats   = int(line[4:6])
+      num_sats   = int(line[3:6])
       ## Get the time system
       while line and line[0:2] != "%c": line = fin.readline()
       if line[0:2] != "%c":
@@ -54,23 +54,13 @@ class Sp3:
     elif self.version == 'd':
       num_lines = 0
       with open(self.filename, "r") as fin:
-        ## read number of sats from line 3
-        for i in range(0,3): line = fin.readline()
-        num_lines += 3
-        num_sats = int(line[3:6])
-        ## each line holds 17 sats
-        for i in range(0,int(num_sats/17e0)):
-          line = fin.readline()
-          assert line[0] == '+'
-        num_lines += int(num_sats/17e0)
-        for i in range(0,int(num_sats/17e0)):
-          line = fin.readline()
-          assert line[0:2] == '++'
-        num_lines += int(num_sats/17e0)
+        ## the number of satellite lines varies; the header ends at the first
+        ## epoch line
+        line = fin.readline()
         while line and line[0] != '*':
+          num_lines += 1
           line = fin.readline()
-          num_lines+=1
-      return num_lines-1
+      return num_lines
     else:
       raise RuntimeError("[ERROR] Sp3 file has corrupt header version")
 
-- 
2.43.0


From e5ec1c4e75be893618de08319114195cfd6b6e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:43 +0000
Subject: [PATCH 55/69] fix: pasteoncol reads blank lines and values quoted on
 their own

A line of blanks, or a quoted value at the end of a line, raised an
IndexError; a value with both its quotes was merged with the next one.
---
 var/pasteoncol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/var/pasteoncol.py b/var/pasteoncol.py
index f0cfd5a..78f3720 100755
--- a/var/pasteoncol.py
+++ b/var/pasteoncol.py
@@ -16,7 +16,7 @@ def mysplit(line):
   lst = line.split()
   i=0
   while (i<len(lst)):
-    if (lst[i][0]=="\"" or lst[i][0]=="\'") and (lst[i+1][-1]=="\"" or lst[i+1][-1]=="\'"):
+    if lst[i][0] in "\"'" and (len(lst[i])==1 or lst[i][-1] not in "\"'") and i+1<len(lst) and lst[i+1][-1] in "\"'":
       nlst.append(' '.join([lst[i], lst[i+1]]))
       i+=2
     else:
@@ -29,14 +29,14 @@ with open(sys.argv[1], 'r') as fin:
   for line in fin.readlines():
     if len(line)>1 and line[0]!='#':
       l=mysplit(line)
-      lines1.append(l)
+      if l: lines1.append(l)
 
 lines2 = []
 with open(sys.argv[2], 'r') as fin:
   for line in fin.readlines():
     if len(line)>1 and line[0]!='#':
       l=mysplit(line)
-      lines2.append(l)
+      if l: lines2.append(l)
 
 if len(lines1) > len(lines2):
   reflines = lines1
-- 
2.43.0


From e9077278e3e411aba07f5d80556f607a88c3f60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:07 +0000
Subject: [PATCH 56/69] fix: pasteoncol drops a last line of one character
 without a newline

A line was taken for empty when it had fewer than two characters, its
newline included.
---
 var/pasteoncol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/var/pasteoncol.py b/var/pasteoncol.py
index 78f3720..9fb9dfa 100755
--- a/var/pasteoncol.py
+++ b/var/pasteoncol.py
@@ -27,14 +27,14 @@ def mysplit(line):
 lines1 = []
 with open(sys.argv[1], 'r') as fin:
   for line in fin.readlines():
-    if len(line)>1 and line[0]!='#':
+    if line[0]!='#':
       l=mysplit(line)
       if l: lines1.append(l)
 
 lines2 = []
 with open(sys.argv[2], 'r') as fin:
   for line in fin.readlines():
-    if len(line)>1 and line[0]!='#':
+    if line[0]!='#':
       l=mysplit(line)
       if l: lines2.append(l)
 
-- 
2.43.0


From cc1673ed2faf25a9329aaeca84b1e359e39cae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:40 +0000
Subject: [PATCH 57/69] fix: a blank field of an Sp3 epoch is an error, not the
 next field's value

---
 src/nvarstr.hpp | 16 ++++++++++++++++
 src/sp3c.cpp    | 11 +++--------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/nvarstr.hpp b/src/nvarstr.hpp
index d135590..da11079 100644
--- a/src/nvarstr.hpp
+++ b/src/nvarstr.hpp
@@ -94,6 +94,22 @@ inline bool __column2double__(const char *&line, double &value) noexcept {
   return end != column;
 }
 
+/// @brief Resolve the integer written in the next M characters of a c-string.
+/// @param[in]  line  Start of the column
+/// @param[out] value The resolved number
+/// @return False if there is no number in the column, e.g.
+///         because it is blank or the string ends before it. Characters past
+///         the column (or past the end of the string) are never considered.
+template <int M>
+inline bool __column2int__(const char *line, int &value) noexcept {
+  char column[M + 1], *end;
+  const std::size_t size = strnlen(line, M);
+  std::memcpy(column, line, size);
+  column[size] = '\0';
+  value = static_cast<int>(std::strtol(column, &end, 10));
+  return end != column;
+}
+
 /// @details Resolve a string of N doubles, written with M digits (i.e. in the
 ///          format N*DM.x as in RINEX 3.x) and asigne them to data[0,N).
 /// @param[in]  line  A c-string containing N doubles written with M digits
diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index ca8aafc..9dcc7f9 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -271,18 +271,13 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
 
   if (line[0] != '*' || line[1] != ' ')
     return 2;
-  date[0] = std::strtol(line + 3, &end, 10);
-  if (!date[0] || errno == ERANGE) {
-    errno = 0;
+  // every field in its own columns; a blank one is no number
+  if (!ngpt::__column2int__<4>(line + 3, date[0]) || !date[0])
     return 5;
-  }
   start = line + 8;
   for (int i = 1; i < 5; i++) {
-    date[i] = std::strtol(start, &end, 10);
-    if (errno == ERANGE || end == start) {
-      errno = 0;
+    if (!ngpt::__column2int__<2>(start, date[i]))
       return 5 + i;
-    }
     start += 3;
   }
   double fsec = std::strtod(start, &end);
-- 
2.43.0


From 4a00b04b053e6483f7abefa1149fdb592b80ae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:40 +0000
Subject: [PATCH 58/69] fix: a blank satellite number and an unreadable slot of
 a SATELLIT record are errors

---
 src/bern_utils.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index e3498a3..a663ae1 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -1,5 +1,6 @@
 #include "bern_utils.hpp"
 #include "ggdatetime/datetime_read.hpp"
+#include "nvarstr.hpp"
 #include <cassert>
 #include <cstring>
 #include <limits>
@@ -77,11 +78,9 @@ int ngpt::BernSatellit::get_frequency_channel(
     // have no SVN field
     if (line[5] == 'M' && line[6] == 'W') {
       errno = 0;
-      csvn = static_cast<int>(std::strtol(line + 28, &end, 10));
-      if (errno == ERANGE || end == line + 28) {
-        errno = 0;
+      // the satellite's number, not the one of the next column if it is blank
+      if (!ngpt::__column2int__<5>(line + 28, csvn))
         return 2;
-      }
       if (csvn == svn) {
         try {
           start = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 41);
@@ -96,7 +95,8 @@ int ngpt::BernSatellit::get_frequency_channel(
           return 4;
         }
         if (eph >= start && eph < stop) {
-          prn = static_cast<int>(std::strtol(line, &end, 10));
+          if (!ngpt::__column2int__<4>(line, prn))
+            return 3;
           ifrqn = static_cast<int>(std::strtol(line + 193, &end, 10));
           if (errno == ERANGE || end == line + 193) {
             errno = 0;
-- 
2.43.0


From bd85e66b18e08d815baaeb03dca0801bec2a7ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:52 +0000
Subject: [PATCH 59/69] fix: a blank field of an observation epoch is an error,
 not the next field's value

---
 src/obsrnx.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 133a742..a54fddb 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -452,17 +452,18 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   const char *start = cline + 2;
   int dints[5];
   errno = 0;
-  for (int i = 0; i < 5; i++) {
-    dints[i] = static_cast<int>(std::strtol(start, &end, 10));
-    if (errno || start == end) {
-      std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed "
-                   "to resolve epoch";
-      std::cerr << "\n        Line was: \"" << cline << "\"";
-      errno = 0;
-      return 2;
-    }
-    start = *end ? end + 1 : end;
+  // every field in its own columns; a blank one is no number
+  if (!ngpt::__column2int__<4>(start, dints[0]) ||
+      !ngpt::__column2int__<2>(start + 5, dints[1]) ||
+      !ngpt::__column2int__<2>(start + 8, dints[2]) ||
+      !ngpt::__column2int__<2>(start + 11, dints[3]) ||
+      !ngpt::__column2int__<2>(start + 14, dints[4])) {
+    std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed "
+                 "to resolve epoch";
+    std::cerr << "\n        Line was: \"" << cline << "\"";
+    return 2;
   }
+  start += 16;
 #ifdef DEBUG
   day_of_month dom(dints[2]);
   assert(dom.is_valid(year(dints[0]), month(dints[1])));
@@ -478,8 +479,8 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   }
 
   // resolve seconds of day
-  double rsec = std::strtod(start, &end);
-  if (errno || start == end) {
+  double rsec;
+  if (!ngpt::__column2double__<11>(start, rsec) || errno) {
     std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed to "
                  "resolve seconds";
     std::cerr << "\n        Line was: \"" << cline << "\"";
@@ -492,8 +493,7 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   flag = cline[31] - '0';
 
   // resolve num of satellites in epoch
-  num_sats = static_cast<int>(std::strtol(cline + 32, &end, 10));
-  if (errno || cline + 32 == end) {
+  if (!ngpt::__column2int__<3>(cline + 32, num_sats)) {
     std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed to "
                  "resolve num sats";
     std::cerr << "\n        Line was: \"" << cline << "\"";
-- 
2.43.0


From 2f22338439d515e7e8e2dd1088b5d3a268464605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:15 +0000
Subject: [PATCH 60/69] fix: an Sp3 record of a satellite numbered 0 or less is
 an error

---
 src/sp3c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 9dcc7f9..aa8ff6a 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -366,7 +366,7 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
   // two columns; a wide x coordinate may follow without a blank
   const char num[3] = {line[2], line[3], '\0'};
   prn = std::strtol(num, &end, 10);
-  if (errno == ERANGE || end == num) {
+  if (errno == ERANGE || end == num || prn < 1) {
     errno = 0;
     return 4;
   }
-- 
2.43.0


From 1af89277320e36cb9a22f0962ac583e6782b8d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:03 +0000
Subject: [PATCH 61/69] fix: searching a valid message of SBAS, QZSS or IRNSS
 reports an error, it does not terminate

---
 src/navrnx.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index bb298d8..11f7b46 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -657,6 +657,10 @@ public:
       return 50;
 #endif
     curpos = tell();
+    // for other systems neither health nor fit interval is known
+    if (sys != SATELLITE_SYSTEM::gps && sys != SATELLITE_SYSTEM::glonass &&
+        sys != SATELLITE_SYSTEM::galileo && sys != SATELLITE_SYSTEM::beidou)
+      return 101;
     int status = 0, dummy_it = 0;
     SATELLITE_SYSTEM csys;
     do {
-- 
2.43.0


From 9a23c3025052cd9c4e7bbcbea3b8aff8e437fc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:32 +0000
Subject: [PATCH 62/69] fix: a navigation file that cannot be read is an error,
 not the end of the file

---
 src/navrnx.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index d3c905d..216083f 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -342,8 +342,8 @@ int NavigationRnx::ignore_next_block() noexcept {
     return 50;
 #endif
   const int s = __istream.peek();
-  if (s == EOF)
-    return clear_stream(-1);
+  if (s == EOF) // of the file, or of what can be read of it
+    return __istream.eof() ? clear_stream(-1) : 50;
 
   ngpt::SATELLITE_SYSTEM sys;
   try {
@@ -382,8 +382,8 @@ ngpt::SATELLITE_SYSTEM NavigationRnx::peak_satsys(int &status) noexcept {
 #endif
   status = 0;
   const int s = __istream.peek();
-  if (s == EOF) {
-    status = clear_stream(-1);
+  if (s == EOF) { // of the file, or of what can be read of it
+    status = __istream.eof() ? clear_stream(-1) : 10;
     return SATELLITE_SYSTEM::mixed;
   }
 
-- 
2.43.0


From 2e7c772cd18fd23ff464f6a3a5c5e8751a97bbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:32 +0000
Subject: [PATCH 63/69] fix: an observation file that cannot be read is an
 error, not the end of the file

---
 src/obsrnx.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index a54fddb..eb06412 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -1033,6 +1033,8 @@ int ObservationRnx::read_next_epoch(
       long records = std::strtol(__buf + 32, nullptr, 10);
       for (long k = std::max(records, 0L); k >= 0; k--)
         if (!next_line(__istream, __buf, __buf_sz)) {
+          if (!__istream.eof())
+            return 20;
           __istream.clear();
           return -1;
         }
@@ -1049,6 +1051,8 @@ int ObservationRnx::read_next_epoch(
   }
   // an epoch may well end at EOF; there is none only if nothing was left
   if (c == EOF) {
+    if (!__istream.eof()) // the file could not be read
+      return 20;
     __istream.clear();
     return -1;
   }
-- 
2.43.0


From cdf6e410d456f7a42451b7cbece22b9c6bb034d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:32 +0000
Subject: [PATCH 64/69] fix: an Sp3 header that cannot be read is an error

---
 src/sp3c.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index aa8ff6a..554ed2c 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -234,6 +234,8 @@ int Sp3c::read_header() noexcept {
       return 80;
     c = __istream.peek();
   }
+  if (__istream.bad()) // the file could not be read
+    return 81;
 
   // Mark the end of header
   __end_of_head = __istream.tellg();
-- 
2.43.0


From 5082fe99b152413b4bbf9c759b99bdc4cdf563cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:56 +0000
Subject: [PATCH 65/69] fix: a satellite-information file whose headings cannot
 be read to their end is refused

A read error in the line after the headings left the start of the records
unknown; every query then failed, also when the file could be read again.
---
 src/bern_utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index a663ae1..d55024c 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -176,6 +176,8 @@ int ngpt::BernSatellit::initialize() noexcept {
   // Cool! we leave the stream here and mark this position; next line to be
   // read is an empty line and then a record line
   read_line(__istream, line);
+  if (__istream.bad()) // the file could not be read
+    return 14;
   __part2 = __istream.tellg();
 
   // All done !
-- 
2.43.0


From 955f51abf30ef812d526ec700d391167f6e98ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:02 +0000
Subject: [PATCH 66/69] fix: Sp3 start epochs after April 2038 are not refused

A modified Julian day above 65536 leaves a double less than the eleven decimals
the start epoch was compared with; the day and its fraction are compared on their own.
---
 src/sp3c.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 554ed2c..7e56be4 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -160,9 +160,10 @@ int Sp3c::read_header() noexcept {
     return 23;
   }
   sec = std::strtod(line + 45, &str_end);
-  sec += mjd;
   // the fraction is written with 13 decimals; a microsecond is 1.2e-11 days
-  if (!(std::abs(sec - start_epoch__.as_mjd()) < 1e-11)) {
+  sec -= start_epoch__.sec().to_fractional_seconds() / 86400e0;
+  if (mjd != start_epoch__.mjd().as_underlying_type() ||
+      !(std::abs(sec) < 1e-11)) {
     std::cerr << "\n[ERROR] Sp3c::read_header() Failed to validate start date";
     return 24;
   }
-- 
2.43.0


From 647799b2166cac0e94d1b167435d39045f1b1cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:53 +0000
Subject: [PATCH 67/69] fix: a number followed by something else in its columns
 is no number

---
 src/nvarstr.hpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/nvarstr.hpp b/src/nvarstr.hpp
index da11079..59a124c 100644
--- a/src/nvarstr.hpp
+++ b/src/nvarstr.hpp
@@ -1,6 +1,7 @@
 #ifndef __NTUA_VARIOUS_STR_FUNCTIONS_HPP__
 #define __NTUA_VARIOUS_STR_FUNCTIONS_HPP__
 
+#include <cctype>
 #include <cerrno>
 #include <cstdlib>
 #include <cstring>
@@ -76,13 +77,22 @@ std::string rtrim(const char *str, std::size_t &pos,
 std::string ltrim(const char *str, std::size_t &start,
                   std::size_t stop = -1) noexcept;
 
+/// @brief Check that a number is all there was to read, i.e. that nothing but
+///        whitespace follows it.
+inline bool __nothing_follows__(const char *str) noexcept {
+  while (std::isspace(static_cast<unsigned char>(*str)))
+    ++str;
+  return *str == '\0';
+}
+
 /// @brief Resolve the number written in the next M characters of a c-string and
 ///        move past them.
 /// @param[in,out] line  Start of the column; at exit, start of the next one
 /// @param[out]    value The resolved number
 /// @return False if there is no number in the column, e.g. because it is blank
-///         or the string ends before it. Characters past the column (or past
-///         the end of the string) are never considered.
+///         or the string ends before it, or if there is anything but a number
+///         in it. Characters past the column (or past the end of the string)
+///         are never considered.
 template <int M>
 inline bool __column2double__(const char *&line, double &value) noexcept {
   char column[M + 1], *end;
@@ -91,15 +101,18 @@ inline bool __column2double__(const char *&line, double &value) noexcept {
   column[size] = '\0';
   line += size;
   value = std::strtod(column, &end);
-  return end != column;
+  // numbers are decimal here: no 0x.., no nan and no inf
+  return end != column && __nothing_follows__(end) &&
+         !std::strpbrk(column, "xXnN");
 }
 
 /// @brief Resolve the integer written in the next M characters of a c-string.
 /// @param[in]  line  Start of the column
 /// @param[out] value The resolved number
 /// @return False if there is no number in the column, e.g.
-///         because it is blank or the string ends before it. Characters past
-///         the column (or past the end of the string) are never considered.
+///         because it is blank or the string ends before it, or if there is
+///         anything but a number in it. Characters past the column (or past
+///         the end of the string) are never considered.
 template <int M>
 inline bool __column2int__(const char *line, int &value) noexcept {
   char column[M + 1], *end;
@@ -107,7 +120,7 @@ inline bool __column2int__(const char *line, int &value) noexcept {
   std::memcpy(column, line, size);
   column[size] = '\0';
   value = static_cast<int>(std::strtol(column, &end, 10));
-  return end != column;
+  return end != column && __nothing_follows__(end);
 }
 
 /// @details Resolve a string of N doubles, written with M digits (i.e. in the
-- 
2.43.0


From 98368f9ed38f80cc462b93b7887c665fde92c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:18 +0000
Subject: [PATCH 68/69] fix: partly damaged numbers, dates and versions are not
 delivered as what precedes the damage

---
 src/antex.cpp      | 45 ++++++++++++++++++---------------------------
 src/bern_utils.cpp |  7 ++++---
 src/navrnx.cpp     | 15 ++++++++-------
 src/nvarstr.hpp    | 11 +++++++++++
 src/obsrnx.cpp     | 39 ++++++++++++++++-----------------------
 src/sp3c.cpp       | 23 ++++++++++-------------
 6 files changed, 67 insertions(+), 73 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index fce5e73..87ba444 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -141,11 +141,10 @@ int Antex::read_header() noexcept {
   // Read the first line. Get version and system.
   // ----------------------------------------------------
   next_line(__istream, line);
-  // strtod will keep on reading untill a non-valid
-  // char is read. Fuck this, lets split the string
-  // so that it only reads the valid chars (for version).
-  *(line + 15) = '\0';
-  float fvers = std::strtod(line, nullptr);
+  double fvers;
+  const char *column = line;
+  if (!ngpt::__column2double__<8>(column, fvers))
+    return 10;
   if (std::abs(fvers - 1.4) < .001) {
     __version = Antex::ATX_VERSION::v14;
   } else if (std::abs(fvers - 1.3) < .001) {
@@ -367,7 +366,8 @@ int resolve_satellite_antenna_line(const char *line, Satellite &sat) noexcept {
   if (line[20] != ' ') {
     try {
       sat.system() = ngpt::char_to_satsys(line[20]);
-      sat.prn() = std::stoi(std::string(line + 21, 5));
+      if (!ngpt::__column2int__<5>(line + 21, sat.prn()))
+        return 5;
     } catch (std::exception &) {
       return 5;
     }
@@ -386,11 +386,8 @@ int resolve_satellite_antenna_line(const char *line, Satellite &sat) noexcept {
   if (!ngpt::string_is_empty(line + 40, 10)) {
     if (line[40] != line[20])
       return 10;
-    try {
-      sat.svn() = std::stoi(std::string(line + 41, 5));
-    } catch (std::exception &e) {
+    if (!ngpt::__column2int__<5>(line + 41, sat.svn()))
       return 10;
-    }
   }
 
   // next 10 fields are the COSPAR id; this is optional
@@ -436,6 +433,8 @@ int check_time_interval(std::ifstream &fin,
     if (!next_line(fin, line))
       return 20;
     if (!std::strncmp(line + 60, "VALID FROM", 10)) {
+      if (!ngpt::__only_numbers__(line, 43))
+        return 11;
       try {
         from = ngpt::strptime_ymd_hms<ngpt::seconds>(line);
         from_ok = true;
@@ -443,6 +442,8 @@ int check_time_interval(std::ifstream &fin,
         return 11;
       }
     } else if (!std::strncmp(line + 60, "VALID UNTIL", 11)) {
+      if (!ngpt::__only_numbers__(line, 43))
+        return 12;
       try {
         to = ngpt::strptime_ymd_hms<ngpt::seconds>(line);
         to_ok = true;
@@ -697,7 +698,6 @@ int Antex::get_antenna_pco(const ReceiverAntenna &ant_in,
 int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   char hline[MAX_HEADER_CHARS];
   char gline[MAX_GRID_CHARS];
-  char tmp[11];
 
   // next field is 'METH / BY / # / DATE'
   if (!next_line(fin, hline) ||
@@ -724,11 +724,8 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
       std::strncmp(hline + 60, "# OF FREQUENCIES", 16)) {
     return 4;
   } else {
-    try {
-      num_of_freqs = std::stoi(std::string(hline, 6), nullptr);
-    } catch (std::exception &e) {
+    if (!ngpt::__column2int__<6>(hline, num_of_freqs))
       return 4;
-    }
   }
 
   // From here up untill the block 'START OF FREQUENCY' there can be a number
@@ -741,7 +738,7 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   ngpt::SATELLITE_SYSTEM ss;
   ngpt::ObservationCode obsc;
   int bn;
-  double dn, de, du;
+  double neu[3];
   for (int i = 0; i < num_of_freqs; i++) {
     // make sure we are at the START OF FREQUENCY line
     if (!fin || std::strncmp(hline + 60, "START OF FREQUENCY", 18)) {
@@ -764,30 +761,24 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     // resolve satellite system and observation code
     try {
       ss = ngpt::char_to_satsys(hline[3]);
-      bn = std::stoi(std::string(hline + 4, 2));
     } catch (std::exception &) {
       return 6;
     }
+    if (!ngpt::__column2int__<2>(hline + 4, bn))
+      return 6;
     obsc.band() = bn;
     // next field is 'NORTH / EAST / UP'
     if (next_line(fin, hline) &&
         !std::strncmp(hline + 60, "NORTH / EAST / UP", 17)) {
-      tmp[10] = '\0';
-      try {
-        std::memcpy(tmp, hline, 10);
-        dn = std::stod(tmp);
-        std::memcpy(tmp, hline + 10, 10);
-        de = std::stod(tmp);
-        std::memcpy(tmp, hline + 20, 10);
-        du = std::stod(tmp);
-      } catch (std::exception &) {
+      if (!ngpt::__char2double__<3, 10>(hline, neu)) {
+        errno = 0;
         return 8;
       }
     } else {
       return 7;
     }
     // assign to a new pco and add to list
-    pco_list.__vecref__().emplace_back(obsc, ss, dn, de, du);
+    pco_list.__vecref__().emplace_back(obsc, ss, neu[0], neu[1], neu[2]);
     // skip lines until "END OF FREQUENCY"
     do {
       next_line(fin, gline);
diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index d55024c..41dd2b6 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -70,7 +70,6 @@ int ngpt::BernSatellit::get_frequency_channel(
 
   // keep reading untill we match svn and epoch
   int csvn;
-  char *end;
   ngpt::datetime<ngpt::seconds> start, stop;
   while (read_line(__istream, line)) {
     // we are only interested in satellites of type: 'MW' everything else
@@ -82,6 +81,9 @@ int ngpt::BernSatellit::get_frequency_channel(
       if (!ngpt::__column2int__<5>(line + 28, csvn))
         return 2;
       if (csvn == svn) {
+        // from column 42 to 61, and from column 63 to 82
+        if (!ngpt::__only_numbers__(line + 41, 41))
+          return 4;
         try {
           start = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 41);
           stop = ngpt::datetime<ngpt::seconds>::max();
@@ -97,8 +99,7 @@ int ngpt::BernSatellit::get_frequency_channel(
         if (eph >= start && eph < stop) {
           if (!ngpt::__column2int__<4>(line, prn))
             return 3;
-          ifrqn = static_cast<int>(std::strtol(line + 193, &end, 10));
-          if (errno == ERANGE || end == line + 193) {
+          if (!ngpt::__column2int__<4>(line + 193, ifrqn)) {
             errno = 0;
             // throw std::runtime_error("[ERROR] Failed to resolve svn from
             // SATELLIT file");
diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 216083f..591ba4a 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -110,7 +110,6 @@ static void __fill_spares__(ngpt::SATELLITE_SYSTEM s, int ln,
 /// @return    Anything other than 0 denotes an error.
 int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   char line[MAX_RECORD_CHARS];
-  char *str_end;
 
 #ifdef DEBUG
   if (!inp.good())
@@ -126,16 +125,17 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
     return 1;
   }
   // columns 4-23 hold the date, columns 2-3 the satellite number
-  const char prn[] = {line[1], line[2], '\0'};
   const std::string date(line + 3, strnlen(line + 3, 20));
+  if (!__only_numbers__(date.c_str(), date.size())) {
+    return 9;
+  }
   try {
     sys__ = ngpt::char_to_satsys(*line);
     toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(date.c_str());
   } catch (std::exception &) {
     return 9;
   }
-  prn__ = std::strtol(prn, &str_end, 10);
-  if (prn__ <= 0) {
+  if (!__column2int__<2>(line + 1, prn__) || prn__ <= 0) {
     return 2;
   }
   // replace 'D' or 'd' with 'e' in remaining floats
@@ -270,7 +270,6 @@ NavigationRnx::NavigationRnx(const char *filename)
 /// @return  Anything other than 0 denotes an error.
 int NavigationRnx::read_header() noexcept {
   char line[MAX_HEADER_CHARS];
-  char *str_end;
 
   // The stream should be open by now!
   if (!__istream.is_open())
@@ -282,9 +281,11 @@ int NavigationRnx::read_header() noexcept {
   // Read the first line. Get version, data-type and sat. system.
   // ------------------------------------------------------------
   next_line(__istream, line);
-  __version = std::strtof(line, &str_end);
-  if (str_end == line)
+  double version;
+  const char *column = line;
+  if (!__column2double__<9>(column, version))
     return 10; // transformation to float has failed
+  __version = static_cast<float>(version);
   if (line[20] != 'N')
     return 11;
   try {
diff --git a/src/nvarstr.hpp b/src/nvarstr.hpp
index 59a124c..fd8e6a2 100644
--- a/src/nvarstr.hpp
+++ b/src/nvarstr.hpp
@@ -123,6 +123,17 @@ inline bool __column2int__(const char *line, int &value) noexcept {
   return end != column && __nothing_follows__(end);
 }
 
+/// @brief Check that the next n characters of a c-string (or all of them, if it
+///        ends before that) can be a date, i.e. that there is nothing but
+///        numbers and blanks in them.
+inline bool __only_numbers__(const char *str, std::size_t n) noexcept {
+  for (const char *end = str + strnlen(str, n); str != end; ++str)
+    if (!std::isspace(static_cast<unsigned char>(*str)) &&
+        !std::isdigit(static_cast<unsigned char>(*str)) && *str != '.')
+      return false;
+  return true;
+}
+
 /// @details Resolve a string of N doubles, written with M digits (i.e. in the
 ///          format N*DM.x as in RINEX 3.x) and asigne them to data[0,N).
 /// @param[in]  line  A c-string containing N doubles written with M digits
diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index eb06412..24e0f76 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -65,7 +65,6 @@ static bool next_line(std::ifstream &fin, char *line, std::size_t N) noexcept {
 ///                F14.3I1I1; any -or all- of the three numbers (the float or
 ///                any of the ints can be blank)
 int RawRnxObs__::resolve(char *str) noexcept {
-  char *end;
   __lli = __ssi = 0;
   if (string_is_empty(str, 14)) {
     __val = RNXOBS_MISSING_VAL;
@@ -73,12 +72,9 @@ int RawRnxObs__::resolve(char *str) noexcept {
   }
   // the indicators follow the value without any delimeter; they are no part of
   // the number
-  char value[15];
-  std::memcpy(value, str, 14);
-  value[14] = '\0';
+  const char *value = str;
   errno = 0;
-  __val = std::strtod(value, &end);
-  if (errno || value == end) {
+  if (!ngpt::__column2double__<14>(value, __val) || errno) {
     errno = 0;
     return 1;
   }
@@ -226,7 +222,6 @@ int ObservationRnx::max_obs() const noexcept {
 ///       PRN / # OF OBS
 int ObservationRnx::read_header() noexcept {
   char line[MAX_HEADER_CHARS];
-  char *str_end;
 
   // The stream should be open by now!
   if (!__istream.is_open())
@@ -239,9 +234,11 @@ int ObservationRnx::read_header() noexcept {
   // ------------------------------------------------------------
   if (!next_line(__istream, line, MAX_HEADER_CHARS))
     return 10;
-  __version = std::strtof(line, &str_end);
-  if (str_end == line)
+  double version;
+  const char *column = line;
+  if (!ngpt::__column2double__<9>(column, version))
     return 10; // transformation to float has failed
+  __version = static_cast<float>(version);
   if (line[20] != 'O')
     return 11;
   try {
@@ -311,6 +308,8 @@ int ObservationRnx::read_header() noexcept {
       }
     } else if (!std::strncmp(line + 60, "TIME OF FIRST OBS",
                              std::strlen("TIME OF FIRST OBS"))) {
+      if (!ngpt::__only_numbers__(line, 43))
+        return 61;
       try {
         __epoch_start = ngpt::strptime_ymd_hms<ngpt::microseconds>(line);
       } catch (std::exception &e) {
@@ -350,7 +349,6 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
   char line[MAX_HEADER_CHARS];
   std::memcpy(line, cline, sizeof line);
 
-  char *end;
   std::vector<ngpt::ObservationCode> obsvec;
   SATELLITE_SYSTEM satsys;
   try {
@@ -368,8 +366,8 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     return 1;
   }
   errno = 0;
-  int obsnum = std::strtol(line + 3, &end, 10);
-  if (errno || (line + 3) == end) {
+  int obsnum;
+  if (!ngpt::__column2int__<3>(line + 3, obsnum)) {
     errno = 0;
     std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to resolve "
                  "field: \"SYS / # / OBS TYPES\"";
@@ -448,7 +446,6 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   }
 
   // resolve the day as Modified Julian Day
-  char *end;
   const char *start = cline + 2;
   int dints[5];
   errno = 0;
@@ -503,9 +500,10 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
 
   // resolve clock offset if any
   if (lnlen > 41) {
-    rcvr_coff =
-        string_is_empty(cline + 41) ? 0e0 : std::strtod(cline + 41, &end);
-    if (errno || cline + 41 == end) {
+    const char *offset = cline + 41;
+    rcvr_coff = 0e0;
+    if (!string_is_empty(offset) &&
+        (!ngpt::__column2double__<15>(offset, rcvr_coff) || errno)) {
       std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed "
                    "to resolve receiver clock offset";
       std::cerr << "\n        Line was: \"" << cline << "\"";
@@ -832,19 +830,14 @@ ObservationRnx::obs_getter(const GnssObservable &obs, SATELLITE_SYSTEM &sys,
 int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
                                       int &prn, std::vector<double> &vals) const
     noexcept {
-  char tbuf[17];
-  char *end;
+  char tbuf[17] = {'\0'};
   int status = 0;
 
 #ifdef DEBUG
   assert(vals.size() >= sysobs.size());
 #endif
 
-  std::memset(tbuf, '\0', 17);
-  std::memcpy(tbuf, __buf + 1, 2);
-  errno = 0;
-  prn = std::strtol(tbuf, &end, 10);
-  if ((errno || tbuf == end) || (prn < 1 || prn > 99))
+  if (!ngpt::__column2int__<2>(__buf + 1, prn) || (prn < 1 || prn > 99))
     return 1;
 
   RawRnxObs__ raw_obs;
diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 7e56be4..46baaff 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -111,8 +111,8 @@ int Sp3c::read_header() noexcept {
   }
   double sec = std::strtod(line + 20, &str_end); // read seconds
 
-  num_epochs__ = std::strtol(line + 32, &str_end, 10); // read number of epochs
-  if (!num_epochs__ || errno == ERANGE) {
+  // read number of epochs
+  if (!ngpt::__column2int__<7>(line + 32, num_epochs__) || !num_epochs__) {
     errno = 0;
     return 16;
   }
@@ -150,8 +150,8 @@ int Sp3c::read_header() noexcept {
     std::cerr << "\n[ERROR] Sp3c::read_header() Failed to validate start date";
     return 22;
   }
-  sec = std::strtod(line + 24, &str_end);
-  if (!(std::abs(sec) < 1e12))
+  const char *interval = line + 24;
+  if (!ngpt::__column2double__<14>(interval, sec) || !(std::abs(sec) < 1e12))
     return 25;
   interval__ = ngpt::microseconds(std::lround(sec * 1e6));
   int mjd = std::strtol(line + 39, &str_end, 10);
@@ -176,8 +176,7 @@ int Sp3c::read_header() noexcept {
   next_line(__istream, line);
   if (*line != '+' || line[1] != ' ')
     return 30;
-  num_sats__ = std::strtol(std::string(line + 3, 3).c_str(), nullptr, 10);
-  if (num_sats__ < 1 || errno == ERANGE) {
+  if (!ngpt::__column2int__<3>(line + 3, num_sats__) || num_sats__ < 1) {
     errno = 0;
     return 31;
   }
@@ -263,7 +262,8 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
                          std::vector<Sp3EpochSvRecord> &vec,
                          int &sats_read) noexcept {
   char line[MAX_RECORD_CHARS];
-  char *end, *start, c;
+  char c;
+  const char *start;
   int date[5];
   errno = 0;
 
@@ -283,8 +283,8 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
       return 5 + i;
     start += 3;
   }
-  double fsec = std::strtod(start, &end);
-  if (errno == ERANGE || end == start) {
+  double fsec;
+  if (!ngpt::__column2double__<11>(start, fsec) || errno == ERANGE) {
     errno = 0;
     return 11;
   }
@@ -354,7 +354,6 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
 int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
                             std::array<double, 4> &state,
                             Sp3Flag &flag) noexcept {
-  char *end;
   const char *start;
   flag.reset();
 
@@ -367,9 +366,7 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
     return 3;
   }
   // two columns; a wide x coordinate may follow without a blank
-  const char num[3] = {line[2], line[3], '\0'};
-  prn = std::strtol(num, &end, 10);
-  if (errno == ERANGE || end == num || prn < 1) {
+  if (!ngpt::__column2int__<2>(line + 2, prn) || prn < 1) {
     errno = 0;
     return 4;
   }
-- 
2.43.0


From f9424cd86b4ed02124ed08a32746b41269c5ad1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:33 +0000
Subject: [PATCH 69/69] fix: an observation epoch cannot have a negative number
 of satellites

---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 24e0f76..64567b2 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -490,7 +490,7 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   flag = cline[31] - '0';
 
   // resolve num of satellites in epoch
-  if (!ngpt::__column2int__<3>(cline + 32, num_sats)) {
+  if (!ngpt::__column2int__<3>(cline + 32, num_sats) || num_sats < 0) {
     std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed to "
                  "resolve num sats";
     std::cerr << "\n        Line was: \"" << cline << "\"";
-- 
2.43.0

