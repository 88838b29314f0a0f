From 949a762f78892f2c58485ed612f5a7e3850aa0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 01/25] fix: compare with the end of the composition table in
 find_composed

The search result was compared with the end of another table, so a pair
sorting after the last entry read past the end of TO_COMPOSED.
---
 src/Ystring/Normalize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index 8affe78..38b12b1 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -38,7 +38,7 @@ namespace ystring
             auto it = std::lower_bound(std::begin(TO_COMPOSED),
                                        std::end(TO_COMPOSED),
                                        key << 20u);
-            if (it == std::end(TO_DECOMPOSED) || char32_t(*it >> 20u) != key)
+            if (it == std::end(TO_COMPOSED) || char32_t(*it >> 20u) != key)
                 return 0;
             return char32_t(*it & 0xFFFFFu);
         }
-- 
2.43.0


From ccdcbb251ee6103fc09018c04bcc91f6359fbb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 02/25] fix: compose pairs whose first code point is U+1000 or
 above

The 41 bit key of the table entry was truncated to 32 bits before being
compared, so such pairs were never found.
---
 src/Ystring/Normalize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index 38b12b1..b33c6f2 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -38,7 +38,7 @@ namespace ystring
             auto it = std::lower_bound(std::begin(TO_COMPOSED),
                                        std::end(TO_COMPOSED),
                                        key << 20u);
-            if (it == std::end(TO_COMPOSED) || char32_t(*it >> 20u) != key)
+            if (it == std::end(TO_COMPOSED) || (*it >> 20u) != key)
                 return 0;
             return char32_t(*it & 0xFFFFFu);
         }
-- 
2.43.0


From 5d4fbea338249818a70282418c0f4f6920a5cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 03/25] fix: don't compose with code points that don't fit in
 the key

The 21st bit of the second code point spilled over into the first, so
e.g. A followed by U+100300 was composed to U+00C0.
---
 src/Ystring/Normalize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index b33c6f2..1a07ed3 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -32,7 +32,8 @@ namespace ystring
 
         char32_t find_composed(char32_t ch, char32_t mark)
         {
-            if (mark < 0x300)
+            // Each key consists of two 20 bit values.
+            if (mark < 0x300 || mark > 0xFFFFF || ch > 0xFFFFF)
                 return 0;
             auto key = (uint64_t(ch) << 20u) | uint64_t(mark);
             auto it = std::lower_bound(std::begin(TO_COMPOSED),
-- 
2.43.0


From 43dad475e7669e2b7289ab0526ad2c5bc0a0efea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 04/25] fix: don't drop the code point following a composed one

prev must be the end of the code point that terminated the inner loop,
otherwise that code point is lost if the next one is combined as well,
or if the string ends.
---
 src/Ystring/Normalize.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index 1a07ed3..2c04037 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -135,6 +135,7 @@ namespace ystring
                     ch = denorm;
                     from = prev = to = it;
                 }
+                prev = it;
                 auto out = std::back_inserter(result);
                 encode_utf8(ch, out);
             }
-- 
2.43.0


From 2718eb7aa9bef34d87a24b40008550bdbbf63922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 05/25] fix: follow the base when computing the size of a
 decomposition

get_decomposed_size followed the mark instead of the base, which gave
too small sizes: to_decomposed looped forever and decompose returned
the wrong result for characters with four-part decompositions.
---
 src/Ystring/Normalize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index 2c04037..3e29bbd 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -51,7 +51,7 @@ namespace ystring
             while (mark)
             {
                 ++n;
-                std::tie(norm, mark) = find_decomposed(mark);
+                std::tie(norm, mark) = find_decomposed(norm);
             }
             return n;
         }
-- 
2.43.0


From bbb8b060fd84db61feb2a8b1c5031b52a0ec5f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 06/25] fix: classify all code points in the ranges of the
 Unicode database

The list of code points that end a range was outdated: in Unicode 16 most
CJK and Tangut ideographs were classified as unassigned. Recognize the
ends of ranges by their names instead, and update the table.
---
 src/Ystring/CharClassTables.hpp               | 498 +++++++++---------
 .../make_char_class_file.py                   |   6 +-
 2 files changed, 251 insertions(+), 253 deletions(-)

diff --git a/src/Ystring/CharClassTables.hpp b/src/Ystring/CharClassTables.hpp
index 973d811..74cfcbb 100644
--- a/src/Ystring/CharClassTables.hpp
+++ b/src/Ystring/CharClassTables.hpp
@@ -248,255 +248,255 @@ namespace ystring
         0x0188201E, 0x018980BE, 0x018C78BE, 0x018C8816, 0x018CA80B,
         0x018CF816, 0x018DF805, 0x018F2816, 0x018F7BD6, 0x018FF805,
         0x0190FADE, 0x0191480B, 0x01923816, 0x01928176, 0x0192F80B,
-        0x0193F816, 0x0194480B, 0x01958016, 0x0195F80B, 0x01A002C5,
-        0x026DFBC5, 0x027002C5, 0x04FFF01E, 0x0500A8A4, 0x05246005,
-        0x0524781E, 0x05263016, 0x0526781E, 0x0527B805, 0x0527E804,
-        0x0527F812, 0x053060A4, 0x05307812, 0x0530F805, 0x05314809,
-        0x05315805, 0x0531F81E, 0x05336C02, 0x053378A6, 0x05339912,
-        0x0533F0D2, 0x0533F804, 0x0534DC02, 0x0534E804, 0x0534F806,
-        0x05372805, 0x0537780A, 0x05378806, 0x0537B812, 0x0537F81E,
-        0x0538B015, 0x0538F804, 0x05390815, 0x05397401, 0x05398802,
-        0x053B7C02, 0x053B8004, 0x053BC002, 0x053BE402, 0x053BF001,
-        0x053C3C02, 0x053C4004, 0x053C5015, 0x053C7402, 0x053C7805,
-        0x053C9401, 0x053CA802, 0x053D4C02, 0x053D7822, 0x053DA001,
-        0x053E1C02, 0x053E3801, 0x053E5402, 0x053E6822, 0x053E781E,
-        0x053E8C02, 0x053E9BC2, 0x053EA01E, 0x053EE401, 0x053F881E,
-        0x053FA004, 0x053FB402, 0x053FB805, 0x053FD082, 0x054010A6,
-        0x054030A6, 0x054058A6, 0x05411005, 0x05412007, 0x054138C7,
-        0x054162C6, 0x0541781E, 0x0541A80B, 0x0541C2D4, 0x0541C816,
-        0x0541F81E, 0x05439805, 0x0543B812, 0x0543F81E, 0x05440807,
-        0x05459805, 0x05461807, 0x05462806, 0x0546681E, 0x05467812,
-        0x0546C809, 0x0546F81E, 0x05478806, 0x0547B805, 0x0547DA45,
-        0x0547E012, 0x0547F8A6, 0x05484809, 0x05492805, 0x05496806,
-        0x05497812, 0x054A3005, 0x054A8806, 0x054A9807, 0x054AFBD2,
-        0x054BE005, 0x054BF81E, 0x054C18C7, 0x054D98A6, 0x054DA807,
-        0x054DC806, 0x054DD807, 0x054DE806, 0x054E0007, 0x054E725E,
-        0x054E7804, 0x054EC809, 0x054EE81E, 0x054EF812, 0x054F28A6,
-        0x054F3004, 0x054F7805, 0x054FC809, 0x054FF8BE, 0x05514005,
-        0x05517006, 0x05518007, 0x05519006, 0x0551A007, 0x0551B006,
-        0x0551F81E, 0x055218A6, 0x055260A6, 0x05526807, 0x0552781E,
-        0x0552C809, 0x0552D81E, 0x0552F812, 0x055380A4, 0x0553B005,
-        0x0553D2C5, 0x0553E0E6, 0x0553E807, 0x055580A6, 0x05558805,
-        0x0555A006, 0x0555B005, 0x0555C006, 0x0555E805, 0x055600C5,
-        0x055610C5, 0x0556D01E, 0x0556E8A4, 0x0556F812, 0x055758A7,
-        0x05576806, 0x05577807, 0x05579245, 0x0557A887, 0x0557B006,
-        0x0558001E, 0x05583005, 0x0558401E, 0x05587005, 0x0558801E,
-        0x0558B005, 0x0558F81E, 0x055938BE, 0x055978BE, 0x055AD855,
-        0x055AF804, 0x055B4844, 0x055B5815, 0x055B781E, 0x055DF802,
-        0x055F1005, 0x055F28E6, 0x055F40E6, 0x055F58F2, 0x055F68E6,
-        0x055F781E, 0x055FC809, 0x055FF81E, 0x06BD1805, 0x06BD781E,
-        0x06BE3005, 0x06BE501E, 0x06BFD805, 0x06BFF81E, 0x06FFF81C,
-        0x07C7F81D, 0x07D36805, 0x07D3781E, 0x07D6C805, 0x07D7F81E,
-        0x07D83002, 0x07D8901E, 0x07D8B802, 0x07D8EBC5, 0x07D8F006,
-        0x07D948B3, 0x07D9B8BE, 0x07D9E8BE, 0x07D9F8BE, 0x07DA10BE,
-        0x07DA28BE, 0x07DD8805, 0x07DE1015, 0x07DE901E, 0x07E9F0AF,
-        0x07E9F80E, 0x07EA7816, 0x07EC7805, 0x07EC881E, 0x07EE3805,
-        0x07EE7BD6, 0x07EF781E, 0x07EFE0B4, 0x07EFF816, 0x07F07806,
-        0x07F0BA4E, 0x07F0C9F2, 0x07F0F81E, 0x07F180D2, 0x07F1900D,
-        0x07F1A98E, 0x07F1B9EE, 0x07F1C9EE, 0x07F1D9EE, 0x07F1E9EE,
-        0x07F1F9EE, 0x07F209EE, 0x07F219EE, 0x07F2200F, 0x07F23A4E,
-        0x07F2400F, 0x07F26012, 0x07F2780C, 0x07F29A5E, 0x07F2C24D,
-        0x07F2D1CF, 0x07F2E1CF, 0x07F2F1CF, 0x07F31253, 0x07F3180D,
-        0x07F33A7E, 0x07F34A54, 0x07F35812, 0x07F3781E, 0x07F3A8BE,
-        0x07F7E005, 0x07F7FBDB, 0x07F8001E, 0x07F82254, 0x07F8424E,
-        0x07F851F2, 0x07F86272, 0x07F8680D, 0x07F87812, 0x07F8C809,
-        0x07F8D812, 0x07F8F013, 0x07F90012, 0x07F9D82E, 0x07F9EA4F,
-        0x07F9FAAC, 0x07FA0015, 0x07FAD84E, 0x07FAEA6F, 0x07FAFA6E,
-        0x07FB09F2, 0x07FB19CF, 0x07FB2812, 0x07FB80A4, 0x07FCE805,
-        0x07FCF804, 0x07FDF005, 0x07FE081E, 0x07FE3805, 0x07FE481E,
-        0x07FE7805, 0x07FE881E, 0x07FEB805, 0x07FEC81E, 0x07FEE005,
-        0x07FEF81E, 0x07FF1293, 0x07FF22B6, 0x07FF3A9E, 0x07FF4016,
-        0x07FF6013, 0x07FF7016, 0x07FFC01E, 0x07FFD81B, 0x07FFE816,
-        0x07FFF81E, 0x080060BE, 0x080138BE, 0x0801D8BE, 0x0801F0BE,
-        0x08026805, 0x0802781E, 0x0802E805, 0x0803F81E, 0x0807D005,
-        0x0807F81E, 0x08081012, 0x0808301E, 0x0809980B, 0x0809B01E,
-        0x0809F816, 0x080BA00A, 0x080BC00B, 0x080C4816, 0x080C580B,
-        0x080C7ADE, 0x080CE016, 0x080D03D6, 0x080E781E, 0x080FEAC6,
-        0x0813F81E, 0x0814E005, 0x0814F81E, 0x08168005, 0x081703C6,
-        0x0817D80B, 0x0817F81E, 0x0818F805, 0x0819180B, 0x0819601E,
-        0x081A08AA, 0x081A50AA, 0x081A781E, 0x081BA805, 0x081BD006,
-        0x081BF81E, 0x081CF0BE, 0x081CF812, 0x081E1805, 0x081E381E,
-        0x081E80B2, 0x081EA80A, 0x081FF81E, 0x08213801, 0x08227802,
-        0x0824E805, 0x0824F81E, 0x08254809, 0x0825781E, 0x08269801,
-        0x0826B81E, 0x0827D802, 0x0827F81E, 0x08293805, 0x0829781E,
-        0x082B1805, 0x082B7BD2, 0x082BD83E, 0x082C583E, 0x082C983E,
-        0x082CB03E, 0x082D105E, 0x082D905E, 0x082DD05E, 0x082DE002,
-        0x082DF81E, 0x082F9805, 0x082FF81E, 0x0839B005, 0x0839F81E,
-        0x083AA805, 0x083AF81E, 0x083B3805, 0x083BF81E, 0x083C309E,
-        0x083D889E, 0x083DD004, 0x083FF81E, 0x08402805, 0x084043C5,
-        0x0840481E, 0x0841B0BE, 0x0841C005, 0x0841E3C5, 0x0841F01E,
-        0x0842B0BE, 0x0842B812, 0x0842F80B, 0x0843B005, 0x0843C016,
-        0x0843F80B, 0x0844F005, 0x0845301E, 0x0845780B, 0x0846F81E,
-        0x084798BE, 0x0847A805, 0x0847D01E, 0x0847F80B, 0x0848A805,
-        0x0848D80B, 0x0848FBD2, 0x0849C805, 0x0849FBD2, 0x084BF81E,
-        0x084DB805, 0x084DD81E, 0x084DE80B, 0x084DF805, 0x084E780B,
-        0x084E881E, 0x08500165, 0x085020DE, 0x08503006, 0x0850581E,
-        0x08507806, 0x0850A0BE, 0x0850C0BE, 0x0851A805, 0x0851B81E,
-        0x0851D006, 0x0851FBC6, 0x0852400B, 0x0852781E, 0x0852C012,
-        0x0852F81E, 0x0853E005, 0x0853F972, 0x0854E005, 0x0854F80B,
-        0x0855F81E, 0x085640B6, 0x08572005, 0x08573006, 0x0857501E,
-        0x0857780B, 0x0857B012, 0x0857F81E, 0x0859A805, 0x0859C01E,
-        0x0859F812, 0x085AA805, 0x085AB81E, 0x085AF80B, 0x085B9005,
-        0x085BB81E, 0x085BF80B, 0x085C8805, 0x085CC01E, 0x085CE012,
-        0x085D401E, 0x085D780B, 0x085FF81E, 0x08624005, 0x0863F81E,
-        0x08659001, 0x0865F81E, 0x08679002, 0x0867C81E, 0x0867F80B,
-        0x08691805, 0x08693806, 0x0869781E, 0x0869C809, 0x0869F81E,
-        0x086A4809, 0x086A70A4, 0x086A7805, 0x086B2801, 0x086B401E,
-        0x086B70CD, 0x086B7804, 0x086C2802, 0x086C681E, 0x086C7813,
-        0x0872F81E, 0x0873F97E, 0x087550BE, 0x087568CD, 0x0875781E,
-        0x08758805, 0x0876081E, 0x08762005, 0x0877D81E, 0x0877F806,
-        0x0878E005, 0x08793965, 0x0879781E, 0x087A2805, 0x087A8006,
-        0x087AA00B, 0x087AC812, 0x087B781E, 0x087C0805, 0x087C2806,
-        0x087C4812, 0x087D781E, 0x087E2005, 0x087E580B, 0x087EF81E,
-        0x087FB005, 0x088003C7, 0x088010C7, 0x0881B805, 0x08823006,
-        0x08826812, 0x0882881E, 0x0883280B, 0x08838126, 0x08839005,
-        0x0883A8C5, 0x0883F01E, 0x088410C7, 0x08857805, 0x08859007,
-        0x0885B006, 0x0885C007, 0x0885D006, 0x0885EA5B, 0x08861246,
-        0x08866BDB, 0x0886781E, 0x08874005, 0x0887781E, 0x0887C809,
-        0x0887F81E, 0x08881006, 0x08893005, 0x088960C7, 0x0889A8DE,
-        0x0889F809, 0x088A2245, 0x088A38E5, 0x088A781E, 0x088B98A6,
-        0x088BB245, 0x088BF81E, 0x088C10C7, 0x088D9005, 0x088DA807,
-        0x088DF006, 0x088E0007, 0x088E2005, 0x088E4012, 0x088E68D2,
-        0x088E78E6, 0x088ED125, 0x088EE245, 0x088F025E, 0x088FA00B,
-        0x088FF81E, 0x089090BE, 0x08915805, 0x08917007, 0x08918806,
-        0x0891A0E6, 0x0891A807, 0x0891B806, 0x0891F246, 0x089208A6,
-        0x0893F81E, 0x089438BE, 0x089448BE, 0x089470BE, 0x0894F0BE,
-        0x089548B2, 0x0895781E, 0x0896F8A6, 0x08971007, 0x08975006,
-        0x0897781E, 0x0897C809, 0x0897F81E, 0x08980806, 0x089820FE,
-        0x08986005, 0x0898701E, 0x08988005, 0x0898901E, 0x089948BE,
-        0x089988BE, 0x0899A0BE, 0x0899D0BE, 0x0899E8C5, 0x089A00E6,
-        0x089A2007, 0x089A301E, 0x089A4007, 0x089A501E, 0x089A6807,
-        0x089A83C5, 0x089ABBC7, 0x089AE01E, 0x089B0805, 0x089B1807,
-        0x089B281E, 0x089B6006, 0x089B781E, 0x089BA006, 0x089BF81E,
-        0x089C50BE, 0x089C5805, 0x089C73C5, 0x089C781E, 0x089DB0BE,
-        0x089DB805, 0x089DD007, 0x089E08DE, 0x089E1007, 0x089E2BC7,
-        0x089E301E, 0x089E58FE, 0x089E70E6, 0x089E80E6, 0x089E90A6,
-        0x089E9805, 0x089EB25E, 0x089EC012, 0x089F001E, 0x089F1006,
-        0x089FF81E, 0x08A1A005, 0x08A1B807, 0x08A1F806, 0x08A20807,
-        0x08A228C7, 0x08A23006, 0x08A25005, 0x08A27812, 0x08A2C809,
-        0x08A2E25E, 0x08A2F246, 0x08A30805, 0x08A3F81E, 0x08A57805,
-        0x08A59007, 0x08A5C8C7, 0x08A5D006, 0x08A5F007, 0x08A608C7,
-        0x08A61806, 0x08A630B2, 0x08A63805, 0x08A6781E, 0x08A6C809,
-        0x08ABF81E, 0x08AD7005, 0x08AD8807, 0x08ADA806, 0x08ADB81E,
-        0x08ADD807, 0x08ADF0C7, 0x08AE0006, 0x08AEB812, 0x08AED805,
-        0x08AEE806, 0x08AFF81E, 0x08B17805, 0x08B19007, 0x08B1D006,
-        0x08B1E8E6, 0x08B1F007, 0x08B20006, 0x08B22245, 0x08B2781E,
-        0x08B2C809, 0x08B2F81E, 0x08B36012, 0x08B3F81E, 0x08B558A6,
-        0x08B568E6, 0x08B57807, 0x08B5B0C7, 0x08B5C0C5, 0x08B5C812,
-        0x08B5F81E, 0x08B64809, 0x08B6781E, 0x08B71809, 0x08B7F81E,
-        0x08B8D005, 0x08B8EBC6, 0x08B8F8E6, 0x08B90807, 0x08B930C7,
-        0x08B95806, 0x08B9781E, 0x08B9C809, 0x08B9D80B, 0x08B9FA56,
-        0x08BA3005, 0x08BFF81E, 0x08C15805, 0x08C17007, 0x08C1C0C7,
-        0x08C1D8D2, 0x08C4F81E, 0x08C5F801, 0x08C6F802, 0x08C74809,
-        0x08C7900B, 0x08C7F01E, 0x08C83005, 0x08C84BC5, 0x08C8581E,
-        0x08C8A0BE, 0x08C8B8BE, 0x08C97805, 0x08C9B0FE, 0x08C9C007,
-        0x08C9D01E, 0x08C9E8C7, 0x08C9F8C5, 0x08CA08E5, 0x08CA18E6,
-        0x08CA3012, 0x08CA781E, 0x08CAC809, 0x08CCF81E, 0x08CD3805,
-        0x08CD481E, 0x08CE8005, 0x08CE9807, 0x08CEB806, 0x08CEC81E,
-        0x08CED806, 0x08CF00E6, 0x08CF10B2, 0x08CF20A7, 0x08D003C5,
-        0x08D05006, 0x08D19005, 0x08D1C8C7, 0x08D1D005, 0x08D1F006,
-        0x08D23A46, 0x08D283C5, 0x08D2B006, 0x08D2C007, 0x08D2D806,
-        0x08D44805, 0x08D4B8C7, 0x08D4C806, 0x08D4EA45, 0x08D51012,
-        0x08D5781E, 0x08D7C005, 0x08D7F81E, 0x08D84812, 0x08DDF81E,
-        0x08DF08B2, 0x08DF781E, 0x08DFC809, 0x08DFF81E, 0x08E048BE,
-        0x08E178A7, 0x08E1B8DE, 0x08E1F0C7, 0x08E200C5, 0x08E22812,
-        0x08E2781E, 0x08E2C809, 0x08E3600B, 0x08E3781E, 0x08E38812,
-        0x08E47805, 0x08E4881E, 0x08E540DE, 0x08E54807, 0x08E588C7,
-        0x08E5A0C7, 0x08E5B006, 0x08E7F81E, 0x08E838BE, 0x08E850BE,
-        0x08E98005, 0x08E9B006, 0x08E9D3C6, 0x08E9D81E, 0x08E9F0DE,
-        0x08EA30C5, 0x08EA3806, 0x08EA781E, 0x08EAC809, 0x08EAF81E,
-        0x08EB30BE, 0x08EB48BE, 0x08EC4805, 0x08EC78FE, 0x08EC90DE,
-        0x08ECA8E6, 0x08ECB8E6, 0x08ECC005, 0x08ECF81E, 0x08ED4809,
-        0x08F6F81E, 0x08F79005, 0x08F7A006, 0x08F7B007, 0x08F7C012,
-        0x08F7F81E, 0x08F810C5, 0x08F81807, 0x08F888BE, 0x08F99805,
-        0x08F9A807, 0x08F9D006, 0x08F9E81E, 0x08FA00E6, 0x08FA10E6,
-        0x08FA7812, 0x08FAD126, 0x08FD83C5, 0x08FDF81E, 0x08FEA00B,
-        0x08FEE016, 0x08FF0014, 0x08FF8816, 0x08FFFBD2, 0x091CC805,
-        0x091FF81E, 0x0923795E, 0x0923A012, 0x0923F81E, 0x092A1805,
-        0x097C781E, 0x097F8005, 0x097F9012, 0x097FF81E, 0x09A17805,
-        0x09A20366, 0x09A23005, 0x09A2A806, 0x09A2F81E, 0x0A1FD005,
-        0x0A1FF81E, 0x0A323005, 0x0B07F81E, 0x0B08E805, 0x0B094806,
-        0x0B096007, 0x0B097806, 0x0B09C809, 0x0B3FF81E, 0x0B51C005,
-        0x0B51F81E, 0x0B52F8BE, 0x0B534809, 0x0B53681E, 0x0B537812,
-        0x0B55F8BE, 0x0B564809, 0x0B56781E, 0x0B576805, 0x0B57781E,
-        0x0B57A8D2, 0x0B57F81E, 0x0B597805, 0x0B59B006, 0x0B59D812,
-        0x0B59F816, 0x0B5A2092, 0x0B5A2816, 0x0B5A781E, 0x0B5AD13E,
-        0x0B5B117E, 0x0B5BB805, 0x0B5BE01E, 0x0B5C7805, 0x0B69F81E,
-        0x0B6A1004, 0x0B6B5005, 0x0B6B6004, 0x0B6B7812, 0x0B6BC809,
-        0x0B71F81E, 0x0B72F801, 0x0B73F802, 0x0B74B00B, 0x0B74D012,
-        0x0B77F81E, 0x0B7A5005, 0x0B7A7BC6, 0x0B7A8005, 0x0B7C3807,
-        0x0B7C701E, 0x0B7C9006, 0x0B7CF804, 0x0B7EF81E, 0x0B7F1092,
-        0x0B7F2086, 0x0B7F781E, 0x0B7F8807, 0x0B8003C5, 0x0C3FBBC5,
-        0x0C3FF81E, 0x0C66A805, 0x0C67F01E, 0x0C680005, 0x0C6843C5,
-        0x0D7F781E, 0x0D7FA09E, 0x0D7FE09E, 0x0D7FF89E, 0x0D891005,
-        0x0D8993C5, 0x0D8A781E, 0x0D8A9005, 0x0D8AABC5, 0x0D8B181E,
-        0x0D8B3805, 0x0D8B781E, 0x0D97D805, 0x0DDFF81E, 0x0DE35005,
-        0x0DE3781E, 0x0DE3E005, 0x0DE3F81E, 0x0DE44005, 0x0DE4781E,
-        0x0DE4C805, 0x0DE4E3D6, 0x0DE4F8D2, 0x0DE5181B, 0x0E5FF81E,
-        0x0E677816, 0x0E67C809, 0x0E67F81E, 0x0E759816, 0x0E77F81E,
-        0x0E796806, 0x0E79781E, 0x0E7A3006, 0x0E7A781E, 0x0E7E1816,
-        0x0E7FF81E, 0x0E87A816, 0x0E87F81E, 0x0E893016, 0x0E89401E,
-        0x0E8B2016, 0x0E8B3007, 0x0E8B4806, 0x0E8B6016, 0x0E8B9007,
-        0x0E8BD01B, 0x0E8C1006, 0x0E8C2016, 0x0E8C5806, 0x0E8D4816,
-        0x0E8D6806, 0x0E8F5016, 0x0E8FF81E, 0x0E920816, 0x0E9228D6,
-        0x0E95F81E, 0x0E96980B, 0x0E96F81E, 0x0E97980B, 0x0E97F81E,
-        0x0E9AB016, 0x0E9AF81E, 0x0E9BC00B, 0x0E9FF81E, 0x0EA0C801,
-        0x0EA19802, 0x0EA26801, 0x0EA2A85E, 0x0EA33802, 0x0EA40801,
-        0x0EA4E041, 0x0EA4E81E, 0x0EA4F801, 0x0EA513C1, 0x0EA5201E,
-        0x0EA53001, 0x0EA5401E, 0x0EA5683E, 0x0EA5A801, 0x0EA5D05E,
-        0x0EA5E05E, 0x0EA6205E, 0x0EA67802, 0x0EA74801, 0x0EA81802,
-        0x0EA8303E, 0x0EA85001, 0x0EA8601E, 0x0EA8A83E, 0x0EA8E83E,
-        0x0EA9B802, 0x0EA9D03E, 0x0EA9F83E, 0x0EAA283E, 0x0EAA3001,
-        0x0EAA481E, 0x0EAA883E, 0x0EAB5802, 0x0EAC2801, 0x0EACF802,
-        0x0EADC801, 0x0EAE9802, 0x0EAF6801, 0x0EB03802, 0x0EB10801,
-        0x0EB1D802, 0x0EB2A801, 0x0EB37802, 0x0EB44801, 0x0EB52802,
-        0x0EB5381E, 0x0EB60833, 0x0EB6D853, 0x0EB70802, 0x0EB7D833,
-        0x0EB8A853, 0x0EB8D802, 0x0EB9A833, 0x0EBA7853, 0x0EBAA802,
-        0x0EBB7833, 0x0EBC4853, 0x0EBC7802, 0x0EBD4833, 0x0EBE1853,
-        0x0EBE4802, 0x0EBE5C02, 0x0EBE681E, 0x0EBFF809, 0x0ECFF816,
-        0x0ED1B006, 0x0ED1D016, 0x0ED36006, 0x0ED3AAC6, 0x0ED422C6,
-        0x0ED43016, 0x0ED45812, 0x0ED4D01E, 0x0ED500DE, 0x0ED57806,
-        0x0EF7F81E, 0x0EF85045, 0x0EF8F002, 0x0EF9201E, 0x0EF95002,
-        0x0EFFF81E, 0x0F0038DE, 0x0F00C006, 0x0F00D01E, 0x0F0110DE,
-        0x0F0128DE, 0x0F015006, 0x0F01781E, 0x0F036804, 0x0F047BC6,
-        0x0F07F81E, 0x0F096005, 0x0F09781E, 0x0F09B006, 0x0F09E804,
-        0x0F09F81E, 0x0F0A4809, 0x0F0A73C5, 0x0F0A7816, 0x0F14781E,
-        0x0F1570A6, 0x0F15F81E, 0x0F175805, 0x0F177806, 0x0F17C809,
-        0x0F17FBD4, 0x0F26781E, 0x0F2758A4, 0x0F277806, 0x0F27C809,
-        0x0F2E781E, 0x0F2F6805, 0x0F2F80C5, 0x0F2FD009, 0x0F2FFBD2,
-        0x0F3EF81E, 0x0F3F38BE, 0x0F3F60BE, 0x0F3F78BE, 0x0F3FF8BE,
-        0x0F462005, 0x0F46301E, 0x0F46780B, 0x0F46B006, 0x0F47F81E,
-        0x0F490801, 0x0F4A1802, 0x0F4A58C4, 0x0F4A781E, 0x0F4AC809,
-        0x0F4AE81E, 0x0F4AF812, 0x0F63801E, 0x0F656176, 0x0F658174,
-        0x0F65A00B, 0x0F68001E, 0x0F697176, 0x0F69E80B, 0x0F6FF81E,
-        0x0F7020BE, 0x0F7100BE, 0x0F7118BE, 0x0F712005, 0x0F713BC5,
-        0x0F71401E, 0x0F7198BE, 0x0F71C0BE, 0x0F71D0BE, 0x0F71D805,
-        0x0F7213C5, 0x0F723BC5, 0x0F724BC5, 0x0F725BC5, 0x0F72601E,
-        0x0F7280BE, 0x0F7298BE, 0x0F72A005, 0x0F72BBC5, 0x0F72CBC5,
-        0x0F72DBC5, 0x0F72EBC5, 0x0F72FBC5, 0x0F73001E, 0x0F7318BE,
-        0x0F732005, 0x0F73301E, 0x0F7358BE, 0x0F7398BE, 0x0F73C0BE,
-        0x0F73E8BE, 0x0F73F8BE, 0x0F7450BE, 0x0F74D805, 0x0F75001E,
-        0x0F7520BE, 0x0F7550BE, 0x0F75D805, 0x0F77781E, 0x0F778813,
-        0x0F7FF81E, 0x0F815816, 0x0F81781E, 0x0F849816, 0x0F84F81E,
-        0x0F857016, 0x0F85801E, 0x0F8602DE, 0x0F8682DE, 0x0F87A816,
-        0x0F87F81E, 0x0F88600B, 0x0F8D6816, 0x0F8F281E, 0x0F901016,
-        0x0F90781E, 0x0F91D816, 0x0F91F81E, 0x0F924016, 0x0F92781E,
-        0x0F928816, 0x0F92F81E, 0x0F932816, 0x0F97F81E, 0x0F9FD016,
-        0x0F9FF815, 0x0FB6B816, 0x0FB6D81E, 0x0FB76016, 0x0FB7781E,
-        0x0FB7E016, 0x0FB7F81E, 0x0FBBB016, 0x0FBBD01E, 0x0FBEC816,
-        0x0FBEF81E, 0x0FBF5816, 0x0FBF83D6, 0x0FBFF81E, 0x0FC05816,
-        0x0FC0781E, 0x0FC23816, 0x0FC2781E, 0x0FC2C816, 0x0FC2F81E,
-        0x0FC43816, 0x0FC4781E, 0x0FC56816, 0x0FC5781E, 0x0FC5D816,
-        0x0FC5F81E, 0x0FC60816, 0x0FC7F81E, 0x0FD29816, 0x0FD2F81E,
-        0x0FD36816, 0x0FD3781E, 0x0FD3E016, 0x0FD3F81E, 0x0FD44816,
-        0x0FD4701E, 0x0FD63016, 0x0FD6681E, 0x0FD6E016, 0x0FD6F01E,
-        0x0FD74816, 0x0FD7781E, 0x0FD7C016, 0x0FD7F81E, 0x0FDC9ADE,
-        0x0FDF7816, 0x0FDFC809, 0x100003C5, 0x1536FBC5, 0x153803C5,
-        0x15B9CBC5, 0x15B9F81E, 0x15C0E805, 0x15C103C5, 0x16750BC5,
-        0x167583C5, 0x175F03C5, 0x175F83C5, 0x1772EBC5, 0x17BFF81E,
-        0x17D0E805, 0x180003C5, 0x189A53C5, 0x189A83C5, 0x191D7BC5,
-        0x70000BDB, 0x7000F81E, 0x7003F81B, 0x7007F81E, 0x700F7806,
-        0x77FFF81E, 0x7FFFE81D, 0x7FFFF81E, 0x87FFE81D
+        0x0193F816, 0x0194480B, 0x01958016, 0x0195F80B, 0x019FF816,
+        0x026DF805, 0x026FF816, 0x0500A8A4, 0x05246005, 0x0524781E,
+        0x05263016, 0x0526781E, 0x0527B805, 0x0527E804, 0x0527F812,
+        0x053060A4, 0x05307812, 0x0530F805, 0x05314809, 0x05315805,
+        0x0531F81E, 0x05336C02, 0x053378A6, 0x05339912, 0x0533F0D2,
+        0x0533F804, 0x0534DC02, 0x0534E804, 0x0534F806, 0x05372805,
+        0x0537780A, 0x05378806, 0x0537B812, 0x0537F81E, 0x0538B015,
+        0x0538F804, 0x05390815, 0x05397401, 0x05398802, 0x053B7C02,
+        0x053B8004, 0x053BC002, 0x053BE402, 0x053BF001, 0x053C3C02,
+        0x053C4004, 0x053C5015, 0x053C7402, 0x053C7805, 0x053C9401,
+        0x053CA802, 0x053D4C02, 0x053D7822, 0x053DA001, 0x053E1C02,
+        0x053E3801, 0x053E5402, 0x053E6822, 0x053E781E, 0x053E8C02,
+        0x053E9BC2, 0x053EA01E, 0x053EE401, 0x053F881E, 0x053FA004,
+        0x053FB402, 0x053FB805, 0x053FD082, 0x054010A6, 0x054030A6,
+        0x054058A6, 0x05411005, 0x05412007, 0x054138C7, 0x054162C6,
+        0x0541781E, 0x0541A80B, 0x0541C2D4, 0x0541C816, 0x0541F81E,
+        0x05439805, 0x0543B812, 0x0543F81E, 0x05440807, 0x05459805,
+        0x05461807, 0x05462806, 0x0546681E, 0x05467812, 0x0546C809,
+        0x0546F81E, 0x05478806, 0x0547B805, 0x0547DA45, 0x0547E012,
+        0x0547F8A6, 0x05484809, 0x05492805, 0x05496806, 0x05497812,
+        0x054A3005, 0x054A8806, 0x054A9807, 0x054AFBD2, 0x054BE005,
+        0x054BF81E, 0x054C18C7, 0x054D98A6, 0x054DA807, 0x054DC806,
+        0x054DD807, 0x054DE806, 0x054E0007, 0x054E725E, 0x054E7804,
+        0x054EC809, 0x054EE81E, 0x054EF812, 0x054F28A6, 0x054F3004,
+        0x054F7805, 0x054FC809, 0x054FF8BE, 0x05514005, 0x05517006,
+        0x05518007, 0x05519006, 0x0551A007, 0x0551B006, 0x0551F81E,
+        0x055218A6, 0x055260A6, 0x05526807, 0x0552781E, 0x0552C809,
+        0x0552D81E, 0x0552F812, 0x055380A4, 0x0553B005, 0x0553D2C5,
+        0x0553E0E6, 0x0553E807, 0x055580A6, 0x05558805, 0x0555A006,
+        0x0555B005, 0x0555C006, 0x0555E805, 0x055600C5, 0x055610C5,
+        0x0556D01E, 0x0556E8A4, 0x0556F812, 0x055758A7, 0x05576806,
+        0x05577807, 0x05579245, 0x0557A887, 0x0557B006, 0x0558001E,
+        0x05583005, 0x0558401E, 0x05587005, 0x0558801E, 0x0558B005,
+        0x0558F81E, 0x055938BE, 0x055978BE, 0x055AD855, 0x055AF804,
+        0x055B4844, 0x055B5815, 0x055B781E, 0x055DF802, 0x055F1005,
+        0x055F28E6, 0x055F40E6, 0x055F58F2, 0x055F68E6, 0x055F781E,
+        0x055FC809, 0x055FF81E, 0x06BD1805, 0x06BD781E, 0x06BE3005,
+        0x06BE501E, 0x06BFD805, 0x06BFF81E, 0x06FFF81C, 0x07C7F81D,
+        0x07D36805, 0x07D3781E, 0x07D6C805, 0x07D7F81E, 0x07D83002,
+        0x07D8901E, 0x07D8B802, 0x07D8EBC5, 0x07D8F006, 0x07D948B3,
+        0x07D9B8BE, 0x07D9E8BE, 0x07D9F8BE, 0x07DA10BE, 0x07DA28BE,
+        0x07DD8805, 0x07DE1015, 0x07DE901E, 0x07E9F0AF, 0x07E9F80E,
+        0x07EA7816, 0x07EC7805, 0x07EC881E, 0x07EE3805, 0x07EE7BD6,
+        0x07EF781E, 0x07EFE0B4, 0x07EFF816, 0x07F07806, 0x07F0BA4E,
+        0x07F0C9F2, 0x07F0F81E, 0x07F180D2, 0x07F1900D, 0x07F1A98E,
+        0x07F1B9EE, 0x07F1C9EE, 0x07F1D9EE, 0x07F1E9EE, 0x07F1F9EE,
+        0x07F209EE, 0x07F219EE, 0x07F2200F, 0x07F23A4E, 0x07F2400F,
+        0x07F26012, 0x07F2780C, 0x07F29A5E, 0x07F2C24D, 0x07F2D1CF,
+        0x07F2E1CF, 0x07F2F1CF, 0x07F31253, 0x07F3180D, 0x07F33A7E,
+        0x07F34A54, 0x07F35812, 0x07F3781E, 0x07F3A8BE, 0x07F7E005,
+        0x07F7FBDB, 0x07F8001E, 0x07F82254, 0x07F8424E, 0x07F851F2,
+        0x07F86272, 0x07F8680D, 0x07F87812, 0x07F8C809, 0x07F8D812,
+        0x07F8F013, 0x07F90012, 0x07F9D82E, 0x07F9EA4F, 0x07F9FAAC,
+        0x07FA0015, 0x07FAD84E, 0x07FAEA6F, 0x07FAFA6E, 0x07FB09F2,
+        0x07FB19CF, 0x07FB2812, 0x07FB80A4, 0x07FCE805, 0x07FCF804,
+        0x07FDF005, 0x07FE081E, 0x07FE3805, 0x07FE481E, 0x07FE7805,
+        0x07FE881E, 0x07FEB805, 0x07FEC81E, 0x07FEE005, 0x07FEF81E,
+        0x07FF1293, 0x07FF22B6, 0x07FF3A9E, 0x07FF4016, 0x07FF6013,
+        0x07FF7016, 0x07FFC01E, 0x07FFD81B, 0x07FFE816, 0x07FFF81E,
+        0x080060BE, 0x080138BE, 0x0801D8BE, 0x0801F0BE, 0x08026805,
+        0x0802781E, 0x0802E805, 0x0803F81E, 0x0807D005, 0x0807F81E,
+        0x08081012, 0x0808301E, 0x0809980B, 0x0809B01E, 0x0809F816,
+        0x080BA00A, 0x080BC00B, 0x080C4816, 0x080C580B, 0x080C7ADE,
+        0x080CE016, 0x080D03D6, 0x080E781E, 0x080FEAC6, 0x0813F81E,
+        0x0814E005, 0x0814F81E, 0x08168005, 0x081703C6, 0x0817D80B,
+        0x0817F81E, 0x0818F805, 0x0819180B, 0x0819601E, 0x081A08AA,
+        0x081A50AA, 0x081A781E, 0x081BA805, 0x081BD006, 0x081BF81E,
+        0x081CF0BE, 0x081CF812, 0x081E1805, 0x081E381E, 0x081E80B2,
+        0x081EA80A, 0x081FF81E, 0x08213801, 0x08227802, 0x0824E805,
+        0x0824F81E, 0x08254809, 0x0825781E, 0x08269801, 0x0826B81E,
+        0x0827D802, 0x0827F81E, 0x08293805, 0x0829781E, 0x082B1805,
+        0x082B7BD2, 0x082BD83E, 0x082C583E, 0x082C983E, 0x082CB03E,
+        0x082D105E, 0x082D905E, 0x082DD05E, 0x082DE002, 0x082DF81E,
+        0x082F9805, 0x082FF81E, 0x0839B005, 0x0839F81E, 0x083AA805,
+        0x083AF81E, 0x083B3805, 0x083BF81E, 0x083C309E, 0x083D889E,
+        0x083DD004, 0x083FF81E, 0x08402805, 0x084043C5, 0x0840481E,
+        0x0841B0BE, 0x0841C005, 0x0841E3C5, 0x0841F01E, 0x0842B0BE,
+        0x0842B812, 0x0842F80B, 0x0843B005, 0x0843C016, 0x0843F80B,
+        0x0844F005, 0x0845301E, 0x0845780B, 0x0846F81E, 0x084798BE,
+        0x0847A805, 0x0847D01E, 0x0847F80B, 0x0848A805, 0x0848D80B,
+        0x0848FBD2, 0x0849C805, 0x0849FBD2, 0x084BF81E, 0x084DB805,
+        0x084DD81E, 0x084DE80B, 0x084DF805, 0x084E780B, 0x084E881E,
+        0x08500165, 0x085020DE, 0x08503006, 0x0850581E, 0x08507806,
+        0x0850A0BE, 0x0850C0BE, 0x0851A805, 0x0851B81E, 0x0851D006,
+        0x0851FBC6, 0x0852400B, 0x0852781E, 0x0852C012, 0x0852F81E,
+        0x0853E005, 0x0853F972, 0x0854E005, 0x0854F80B, 0x0855F81E,
+        0x085640B6, 0x08572005, 0x08573006, 0x0857501E, 0x0857780B,
+        0x0857B012, 0x0857F81E, 0x0859A805, 0x0859C01E, 0x0859F812,
+        0x085AA805, 0x085AB81E, 0x085AF80B, 0x085B9005, 0x085BB81E,
+        0x085BF80B, 0x085C8805, 0x085CC01E, 0x085CE012, 0x085D401E,
+        0x085D780B, 0x085FF81E, 0x08624005, 0x0863F81E, 0x08659001,
+        0x0865F81E, 0x08679002, 0x0867C81E, 0x0867F80B, 0x08691805,
+        0x08693806, 0x0869781E, 0x0869C809, 0x0869F81E, 0x086A4809,
+        0x086A70A4, 0x086A7805, 0x086B2801, 0x086B401E, 0x086B70CD,
+        0x086B7804, 0x086C2802, 0x086C681E, 0x086C7813, 0x0872F81E,
+        0x0873F97E, 0x087550BE, 0x087568CD, 0x0875781E, 0x08758805,
+        0x0876081E, 0x08762005, 0x0877D81E, 0x0877F806, 0x0878E005,
+        0x08793965, 0x0879781E, 0x087A2805, 0x087A8006, 0x087AA00B,
+        0x087AC812, 0x087B781E, 0x087C0805, 0x087C2806, 0x087C4812,
+        0x087D781E, 0x087E2005, 0x087E580B, 0x087EF81E, 0x087FB005,
+        0x088003C7, 0x088010C7, 0x0881B805, 0x08823006, 0x08826812,
+        0x0882881E, 0x0883280B, 0x08838126, 0x08839005, 0x0883A8C5,
+        0x0883F01E, 0x088410C7, 0x08857805, 0x08859007, 0x0885B006,
+        0x0885C007, 0x0885D006, 0x0885EA5B, 0x08861246, 0x08866BDB,
+        0x0886781E, 0x08874005, 0x0887781E, 0x0887C809, 0x0887F81E,
+        0x08881006, 0x08893005, 0x088960C7, 0x0889A8DE, 0x0889F809,
+        0x088A2245, 0x088A38E5, 0x088A781E, 0x088B98A6, 0x088BB245,
+        0x088BF81E, 0x088C10C7, 0x088D9005, 0x088DA807, 0x088DF006,
+        0x088E0007, 0x088E2005, 0x088E4012, 0x088E68D2, 0x088E78E6,
+        0x088ED125, 0x088EE245, 0x088F025E, 0x088FA00B, 0x088FF81E,
+        0x089090BE, 0x08915805, 0x08917007, 0x08918806, 0x0891A0E6,
+        0x0891A807, 0x0891B806, 0x0891F246, 0x089208A6, 0x0893F81E,
+        0x089438BE, 0x089448BE, 0x089470BE, 0x0894F0BE, 0x089548B2,
+        0x0895781E, 0x0896F8A6, 0x08971007, 0x08975006, 0x0897781E,
+        0x0897C809, 0x0897F81E, 0x08980806, 0x089820FE, 0x08986005,
+        0x0898701E, 0x08988005, 0x0898901E, 0x089948BE, 0x089988BE,
+        0x0899A0BE, 0x0899D0BE, 0x0899E8C5, 0x089A00E6, 0x089A2007,
+        0x089A301E, 0x089A4007, 0x089A501E, 0x089A6807, 0x089A83C5,
+        0x089ABBC7, 0x089AE01E, 0x089B0805, 0x089B1807, 0x089B281E,
+        0x089B6006, 0x089B781E, 0x089BA006, 0x089BF81E, 0x089C50BE,
+        0x089C5805, 0x089C73C5, 0x089C781E, 0x089DB0BE, 0x089DB805,
+        0x089DD007, 0x089E08DE, 0x089E1007, 0x089E2BC7, 0x089E301E,
+        0x089E58FE, 0x089E70E6, 0x089E80E6, 0x089E90A6, 0x089E9805,
+        0x089EB25E, 0x089EC012, 0x089F001E, 0x089F1006, 0x089FF81E,
+        0x08A1A005, 0x08A1B807, 0x08A1F806, 0x08A20807, 0x08A228C7,
+        0x08A23006, 0x08A25005, 0x08A27812, 0x08A2C809, 0x08A2E25E,
+        0x08A2F246, 0x08A30805, 0x08A3F81E, 0x08A57805, 0x08A59007,
+        0x08A5C8C7, 0x08A5D006, 0x08A5F007, 0x08A608C7, 0x08A61806,
+        0x08A630B2, 0x08A63805, 0x08A6781E, 0x08A6C809, 0x08ABF81E,
+        0x08AD7005, 0x08AD8807, 0x08ADA806, 0x08ADB81E, 0x08ADD807,
+        0x08ADF0C7, 0x08AE0006, 0x08AEB812, 0x08AED805, 0x08AEE806,
+        0x08AFF81E, 0x08B17805, 0x08B19007, 0x08B1D006, 0x08B1E8E6,
+        0x08B1F007, 0x08B20006, 0x08B22245, 0x08B2781E, 0x08B2C809,
+        0x08B2F81E, 0x08B36012, 0x08B3F81E, 0x08B558A6, 0x08B568E6,
+        0x08B57807, 0x08B5B0C7, 0x08B5C0C5, 0x08B5C812, 0x08B5F81E,
+        0x08B64809, 0x08B6781E, 0x08B71809, 0x08B7F81E, 0x08B8D005,
+        0x08B8EBC6, 0x08B8F8E6, 0x08B90807, 0x08B930C7, 0x08B95806,
+        0x08B9781E, 0x08B9C809, 0x08B9D80B, 0x08B9FA56, 0x08BA3005,
+        0x08BFF81E, 0x08C15805, 0x08C17007, 0x08C1C0C7, 0x08C1D8D2,
+        0x08C4F81E, 0x08C5F801, 0x08C6F802, 0x08C74809, 0x08C7900B,
+        0x08C7F01E, 0x08C83005, 0x08C84BC5, 0x08C8581E, 0x08C8A0BE,
+        0x08C8B8BE, 0x08C97805, 0x08C9B0FE, 0x08C9C007, 0x08C9D01E,
+        0x08C9E8C7, 0x08C9F8C5, 0x08CA08E5, 0x08CA18E6, 0x08CA3012,
+        0x08CA781E, 0x08CAC809, 0x08CCF81E, 0x08CD3805, 0x08CD481E,
+        0x08CE8005, 0x08CE9807, 0x08CEB806, 0x08CEC81E, 0x08CED806,
+        0x08CF00E6, 0x08CF10B2, 0x08CF20A7, 0x08D003C5, 0x08D05006,
+        0x08D19005, 0x08D1C8C7, 0x08D1D005, 0x08D1F006, 0x08D23A46,
+        0x08D283C5, 0x08D2B006, 0x08D2C007, 0x08D2D806, 0x08D44805,
+        0x08D4B8C7, 0x08D4C806, 0x08D4EA45, 0x08D51012, 0x08D5781E,
+        0x08D7C005, 0x08D7F81E, 0x08D84812, 0x08DDF81E, 0x08DF08B2,
+        0x08DF781E, 0x08DFC809, 0x08DFF81E, 0x08E048BE, 0x08E178A7,
+        0x08E1B8DE, 0x08E1F0C7, 0x08E200C5, 0x08E22812, 0x08E2781E,
+        0x08E2C809, 0x08E3600B, 0x08E3781E, 0x08E38812, 0x08E47805,
+        0x08E4881E, 0x08E540DE, 0x08E54807, 0x08E588C7, 0x08E5A0C7,
+        0x08E5B006, 0x08E7F81E, 0x08E838BE, 0x08E850BE, 0x08E98005,
+        0x08E9B006, 0x08E9D3C6, 0x08E9D81E, 0x08E9F0DE, 0x08EA30C5,
+        0x08EA3806, 0x08EA781E, 0x08EAC809, 0x08EAF81E, 0x08EB30BE,
+        0x08EB48BE, 0x08EC4805, 0x08EC78FE, 0x08EC90DE, 0x08ECA8E6,
+        0x08ECB8E6, 0x08ECC005, 0x08ECF81E, 0x08ED4809, 0x08F6F81E,
+        0x08F79005, 0x08F7A006, 0x08F7B007, 0x08F7C012, 0x08F7F81E,
+        0x08F810C5, 0x08F81807, 0x08F888BE, 0x08F99805, 0x08F9A807,
+        0x08F9D006, 0x08F9E81E, 0x08FA00E6, 0x08FA10E6, 0x08FA7812,
+        0x08FAD126, 0x08FD83C5, 0x08FDF81E, 0x08FEA00B, 0x08FEE016,
+        0x08FF0014, 0x08FF8816, 0x08FFFBD2, 0x091CC805, 0x091FF81E,
+        0x0923795E, 0x0923A012, 0x0923F81E, 0x092A1805, 0x097C781E,
+        0x097F8005, 0x097F9012, 0x097FF81E, 0x09A17805, 0x09A20366,
+        0x09A23005, 0x09A2A806, 0x09A2F81E, 0x0A1FD005, 0x0A1FF81E,
+        0x0A323005, 0x0B07F81E, 0x0B08E805, 0x0B094806, 0x0B096007,
+        0x0B097806, 0x0B09C809, 0x0B3FF81E, 0x0B51C005, 0x0B51F81E,
+        0x0B52F8BE, 0x0B534809, 0x0B53681E, 0x0B537812, 0x0B55F8BE,
+        0x0B564809, 0x0B56781E, 0x0B576805, 0x0B57781E, 0x0B57A8D2,
+        0x0B57F81E, 0x0B597805, 0x0B59B006, 0x0B59D812, 0x0B59F816,
+        0x0B5A2092, 0x0B5A2816, 0x0B5A781E, 0x0B5AD13E, 0x0B5B117E,
+        0x0B5BB805, 0x0B5BE01E, 0x0B5C7805, 0x0B69F81E, 0x0B6A1004,
+        0x0B6B5005, 0x0B6B6004, 0x0B6B7812, 0x0B6BC809, 0x0B71F81E,
+        0x0B72F801, 0x0B73F802, 0x0B74B00B, 0x0B74D012, 0x0B77F81E,
+        0x0B7A5005, 0x0B7A7BC6, 0x0B7A8005, 0x0B7C3807, 0x0B7C701E,
+        0x0B7C9006, 0x0B7CF804, 0x0B7EF81E, 0x0B7F1092, 0x0B7F2086,
+        0x0B7F781E, 0x0B7F8807, 0x0B7FF81E, 0x0C3FB805, 0x0C3FF81E,
+        0x0C66A805, 0x0C67F01E, 0x0C684005, 0x0D7F781E, 0x0D7FA09E,
+        0x0D7FE09E, 0x0D7FF89E, 0x0D891005, 0x0D8993C5, 0x0D8A781E,
+        0x0D8A9005, 0x0D8AABC5, 0x0D8B181E, 0x0D8B3805, 0x0D8B781E,
+        0x0D97D805, 0x0DDFF81E, 0x0DE35005, 0x0DE3781E, 0x0DE3E005,
+        0x0DE3F81E, 0x0DE44005, 0x0DE4781E, 0x0DE4C805, 0x0DE4E3D6,
+        0x0DE4F8D2, 0x0DE5181B, 0x0E5FF81E, 0x0E677816, 0x0E67C809,
+        0x0E67F81E, 0x0E759816, 0x0E77F81E, 0x0E796806, 0x0E79781E,
+        0x0E7A3006, 0x0E7A781E, 0x0E7E1816, 0x0E7FF81E, 0x0E87A816,
+        0x0E87F81E, 0x0E893016, 0x0E89401E, 0x0E8B2016, 0x0E8B3007,
+        0x0E8B4806, 0x0E8B6016, 0x0E8B9007, 0x0E8BD01B, 0x0E8C1006,
+        0x0E8C2016, 0x0E8C5806, 0x0E8D4816, 0x0E8D6806, 0x0E8F5016,
+        0x0E8FF81E, 0x0E920816, 0x0E9228D6, 0x0E95F81E, 0x0E96980B,
+        0x0E96F81E, 0x0E97980B, 0x0E97F81E, 0x0E9AB016, 0x0E9AF81E,
+        0x0E9BC00B, 0x0E9FF81E, 0x0EA0C801, 0x0EA19802, 0x0EA26801,
+        0x0EA2A85E, 0x0EA33802, 0x0EA40801, 0x0EA4E041, 0x0EA4E81E,
+        0x0EA4F801, 0x0EA513C1, 0x0EA5201E, 0x0EA53001, 0x0EA5401E,
+        0x0EA5683E, 0x0EA5A801, 0x0EA5D05E, 0x0EA5E05E, 0x0EA6205E,
+        0x0EA67802, 0x0EA74801, 0x0EA81802, 0x0EA8303E, 0x0EA85001,
+        0x0EA8601E, 0x0EA8A83E, 0x0EA8E83E, 0x0EA9B802, 0x0EA9D03E,
+        0x0EA9F83E, 0x0EAA283E, 0x0EAA3001, 0x0EAA481E, 0x0EAA883E,
+        0x0EAB5802, 0x0EAC2801, 0x0EACF802, 0x0EADC801, 0x0EAE9802,
+        0x0EAF6801, 0x0EB03802, 0x0EB10801, 0x0EB1D802, 0x0EB2A801,
+        0x0EB37802, 0x0EB44801, 0x0EB52802, 0x0EB5381E, 0x0EB60833,
+        0x0EB6D853, 0x0EB70802, 0x0EB7D833, 0x0EB8A853, 0x0EB8D802,
+        0x0EB9A833, 0x0EBA7853, 0x0EBAA802, 0x0EBB7833, 0x0EBC4853,
+        0x0EBC7802, 0x0EBD4833, 0x0EBE1853, 0x0EBE4802, 0x0EBE5C02,
+        0x0EBE681E, 0x0EBFF809, 0x0ECFF816, 0x0ED1B006, 0x0ED1D016,
+        0x0ED36006, 0x0ED3AAC6, 0x0ED422C6, 0x0ED43016, 0x0ED45812,
+        0x0ED4D01E, 0x0ED500DE, 0x0ED57806, 0x0EF7F81E, 0x0EF85045,
+        0x0EF8F002, 0x0EF9201E, 0x0EF95002, 0x0EFFF81E, 0x0F0038DE,
+        0x0F00C006, 0x0F00D01E, 0x0F0110DE, 0x0F0128DE, 0x0F015006,
+        0x0F01781E, 0x0F036804, 0x0F047BC6, 0x0F07F81E, 0x0F096005,
+        0x0F09781E, 0x0F09B006, 0x0F09E804, 0x0F09F81E, 0x0F0A4809,
+        0x0F0A73C5, 0x0F0A7816, 0x0F14781E, 0x0F1570A6, 0x0F15F81E,
+        0x0F175805, 0x0F177806, 0x0F17C809, 0x0F17FBD4, 0x0F26781E,
+        0x0F2758A4, 0x0F277806, 0x0F27C809, 0x0F2E781E, 0x0F2F6805,
+        0x0F2F80C5, 0x0F2FD009, 0x0F2FFBD2, 0x0F3EF81E, 0x0F3F38BE,
+        0x0F3F60BE, 0x0F3F78BE, 0x0F3FF8BE, 0x0F462005, 0x0F46301E,
+        0x0F46780B, 0x0F46B006, 0x0F47F81E, 0x0F490801, 0x0F4A1802,
+        0x0F4A58C4, 0x0F4A781E, 0x0F4AC809, 0x0F4AE81E, 0x0F4AF812,
+        0x0F63801E, 0x0F656176, 0x0F658174, 0x0F65A00B, 0x0F68001E,
+        0x0F697176, 0x0F69E80B, 0x0F6FF81E, 0x0F7020BE, 0x0F7100BE,
+        0x0F7118BE, 0x0F712005, 0x0F713BC5, 0x0F71401E, 0x0F7198BE,
+        0x0F71C0BE, 0x0F71D0BE, 0x0F71D805, 0x0F7213C5, 0x0F723BC5,
+        0x0F724BC5, 0x0F725BC5, 0x0F72601E, 0x0F7280BE, 0x0F7298BE,
+        0x0F72A005, 0x0F72BBC5, 0x0F72CBC5, 0x0F72DBC5, 0x0F72EBC5,
+        0x0F72FBC5, 0x0F73001E, 0x0F7318BE, 0x0F732005, 0x0F73301E,
+        0x0F7358BE, 0x0F7398BE, 0x0F73C0BE, 0x0F73E8BE, 0x0F73F8BE,
+        0x0F7450BE, 0x0F74D805, 0x0F75001E, 0x0F7520BE, 0x0F7550BE,
+        0x0F75D805, 0x0F77781E, 0x0F778813, 0x0F7FF81E, 0x0F815816,
+        0x0F81781E, 0x0F849816, 0x0F84F81E, 0x0F857016, 0x0F85801E,
+        0x0F8602DE, 0x0F8682DE, 0x0F87A816, 0x0F87F81E, 0x0F88600B,
+        0x0F8D6816, 0x0F8F281E, 0x0F901016, 0x0F90781E, 0x0F91D816,
+        0x0F91F81E, 0x0F924016, 0x0F92781E, 0x0F928816, 0x0F92F81E,
+        0x0F932816, 0x0F97F81E, 0x0F9FD016, 0x0F9FF815, 0x0FB6B816,
+        0x0FB6D81E, 0x0FB76016, 0x0FB7781E, 0x0FB7E016, 0x0FB7F81E,
+        0x0FBBB016, 0x0FBBD01E, 0x0FBEC816, 0x0FBEF81E, 0x0FBF5816,
+        0x0FBF83D6, 0x0FBFF81E, 0x0FC05816, 0x0FC0781E, 0x0FC23816,
+        0x0FC2781E, 0x0FC2C816, 0x0FC2F81E, 0x0FC43816, 0x0FC4781E,
+        0x0FC56816, 0x0FC5781E, 0x0FC5D816, 0x0FC5F81E, 0x0FC60816,
+        0x0FC7F81E, 0x0FD29816, 0x0FD2F81E, 0x0FD36816, 0x0FD3781E,
+        0x0FD3E016, 0x0FD3F81E, 0x0FD44816, 0x0FD4701E, 0x0FD63016,
+        0x0FD6681E, 0x0FD6E016, 0x0FD6F01E, 0x0FD74816, 0x0FD7781E,
+        0x0FD7C016, 0x0FD7F81E, 0x0FDC9ADE, 0x0FDF7816, 0x0FDFC809,
+        0x0FFFF81E, 0x1536F805, 0x1537F81E, 0x15B9C805, 0x15B9F81E,
+        0x15C0E805, 0x15C0F81E, 0x16750805, 0x1675781E, 0x175F0005,
+        0x175F781E, 0x1772E805, 0x17BFF81E, 0x17D0E805, 0x17FFF81E,
+        0x189A5005, 0x189A781E, 0x191D7805, 0x70000BDB, 0x7000F81E,
+        0x7003F81B, 0x7007F81E, 0x700F7806, 0x77FFF81E, 0x7FFFE81D,
+        0x7FFFF81E, 0x87FFE81D
     };
 }
 
diff --git a/tools/unicode_character_tables/make_char_class_file.py b/tools/unicode_character_tables/make_char_class_file.py
index adb8c1a..a1c43f2 100644
--- a/tools/unicode_character_tables/make_char_class_file.py
+++ b/tools/unicode_character_tables/make_char_class_file.py
@@ -127,9 +127,6 @@ ClassNames = {
     "XLu":  "Alternating upper and lower case, ends on upper"
 }
 
-KnownRanges = {0x4DB5, 0x9FCC, 0xD7A3, 0xDB7F, 0xDBFF, 0xDFFF, 0xF8FF,
-               0x2A6D6, 0x2B734, 0x2B81D, 0xFFFFD, 0x10FFFD}
-
 
 Template = """\
 //****************************************************************************
@@ -175,7 +172,8 @@ def get_class_ranges(file_name):
         parts = line.split(";")
         char_class = parts[2]
         char_id = int(parts[0], 16)
-        if (char_id == range_end + 1 or char_id in KnownRanges) and char_class == range_class:
+        ends_range = parts[1].endswith(", Last>")
+        if (char_id == range_end + 1 or ends_range) and char_class == range_class:
             range_end = char_id
         else:
             if range_class:
-- 
2.43.0


From 18e282c35d40623dc7a078bd65f2dc6c7cac8250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 07/25] fix: values above U+10FFFF are unassigned

The shifted key wrapped around for values from 0x200000, which gave them
the character class of some other code point.
---
 src/Ystring/CharClass.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Ystring/CharClass.cpp b/src/Ystring/CharClass.cpp
index f656947..22b1b9c 100644
--- a/src/Ystring/CharClass.cpp
+++ b/src/Ystring/CharClass.cpp
@@ -10,6 +10,7 @@
 #include <algorithm>
 #include <iterator>
 #include "CharClassTables.hpp"
+#include "Ystring/CodepointConstants.hpp"
 
 // What are the values in the COMPLETE_CHAR_CLASSES table?
 //
@@ -62,6 +63,8 @@ namespace ystring
     {
         if (code_point < 128)
             return CharClass_t(1u << ASCII_CHAR_CLASSES[code_point]);
+        if (code_point > UNICODE_MAX)
+            return CharClass::UNASSIGNED;
         char32_t key = code_point << CODE_POINT_SHIFT;
         auto it = std::lower_bound(
             std::begin(COMPLETE_CHAR_CLASSES),
-- 
2.43.0


From 69e16c6d880988a7eb9daeb462273e21c0737396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 08/25] fix: replace with an empty search string returns the
 string unchanged

It used to match at the start of the string over and over again, and with
the default limit it never returned. This is what negative limits and the
case-insensitive version already do.
---
 src/Ystring/Algorithms.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index 7e310e6..3459c12 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -355,6 +355,8 @@ namespace ystring
                         std::string_view to,
                         ptrdiff_t max_replacements)
     {
+        if (from.empty())
+            return std::string(str);
         std::string result;
         if (max_replacements >= 0)
         {
-- 
2.43.0


From 5963bd9f1db6fb48fa838ff325e9b1aabdd50d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 09/25] fix: don't negate PTRDIFF_MIN in replace and
 get_codepoint_pos

It is undefined behaviour.
---
 src/Ystring/Algorithms.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index 3459c12..95d0b71 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -255,7 +255,7 @@ namespace ystring
 
     size_t get_codepoint_pos(std::string_view str, ptrdiff_t pos)
     {
-        if (std::abs(pos) > ptrdiff_t(str.size()))
+        if (pos > ptrdiff_t(str.size()) || pos < -ptrdiff_t(str.size()))
             return std::string_view::npos;
         if (pos >= 0)
         {
@@ -376,7 +376,8 @@ namespace ystring
         else
         {
             size_t prev = 0;
-            auto matches = find_last_n(str, from, -max_replacements);
+            auto matches = find_last_n(str, from,
+                                       size_t(0) - size_t(max_replacements));
             for (auto it = matches.rbegin(); it != matches.rend(); ++it)
             {
                 if (it->offset != prev)
-- 
2.43.0


From c82db77f65e2f48504ba0d6ad0c4c7749aeb0e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 10/25] fix: return a length from get_codepoint_substring_range

With a negative start and a non-negative end the range's length was the
end offset.
---
 src/Ystring/AlgorithmUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/AlgorithmUtilities.cpp b/src/Ystring/AlgorithmUtilities.cpp
index 56da7d8..560aad1 100644
--- a/src/Ystring/AlgorithmUtilities.cpp
+++ b/src/Ystring/AlgorithmUtilities.cpp
@@ -103,7 +103,7 @@ namespace ystring
         {
             auto s = get_capped_codepoint_pos(str, start_index);
             auto e = get_capped_codepoint_pos(str, end_index);
-            return {s, std::max(s, e)};
+            return {s, e > s ? e - s : 0};
         }
     }
 
-- 
2.43.0


From 155d98cc88fbf1756ea7fd197e2240a21aca7f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 11/25] fix: return a length from get_char_substring_range

With a non-negative start and a negative end, e is relative to s already.
---
 src/Ystring/AlgorithmUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/AlgorithmUtilities.cpp b/src/Ystring/AlgorithmUtilities.cpp
index 560aad1..a96793e 100644
--- a/src/Ystring/AlgorithmUtilities.cpp
+++ b/src/Ystring/AlgorithmUtilities.cpp
@@ -65,7 +65,7 @@ namespace ystring
         {
             auto s = get_capped_char_pos(str, start_index);
             auto e = get_capped_char_pos(str.substr(s), end_index);
-            return {s, e - s};
+            return {s, e};
         }
         else
         {
-- 
2.43.0


From 18b69fdb12f6571b49147cc5387957bc8207c6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 12/25] fix: equal negative start and end indices give an empty
 range

The difference 0 was taken as a position from the start of the string.
---
 src/Ystring/AlgorithmUtilities.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Ystring/AlgorithmUtilities.cpp b/src/Ystring/AlgorithmUtilities.cpp
index a96793e..66990fb 100644
--- a/src/Ystring/AlgorithmUtilities.cpp
+++ b/src/Ystring/AlgorithmUtilities.cpp
@@ -58,6 +58,8 @@ namespace ystring
         else if (start_index < 0 && end_index < 0)
         {
             auto e = get_capped_char_pos(str, end_index);
+            if (start_index == end_index)
+                return {e, 0};
             auto s = get_capped_char_pos(str.substr(0, e), start_index - end_index);
             return {s, e - s};
         }
@@ -90,6 +92,8 @@ namespace ystring
         else if (start_index < 0 && end_index < 0)
         {
             auto e = get_capped_codepoint_pos(str, end_index);
+            if (start_index == end_index)
+                return {e, 0};
             auto s = get_capped_codepoint_pos(str.substr(0, e), start_index - end_index);
             return {s, e - s};
         }
-- 
2.43.0


From 6e3551b9339db1dc3b93aafbeb68be481a8bdafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 13/25] fix: TokenIterator::token returns just the token

The length of the sub-string was the token's end offset.
---
 include/Ystring/TokenIterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Ystring/TokenIterator.hpp b/include/Ystring/TokenIterator.hpp
index 0d211df..b1ea289 100644
--- a/include/Ystring/TokenIterator.hpp
+++ b/include/Ystring/TokenIterator.hpp
@@ -52,7 +52,7 @@ namespace ystring
         {
             if (!m_token)
                 return {};
-            return m_str.substr(m_token.start(), m_token.end());
+            return m_str.substr(m_token.start(), m_token.length);
         }
 
         [[nodiscard]] std::string_view remainder() const
-- 
2.43.0


From 4c3bfcb4c2dafc96e67208d18f39bca8cde69f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 14/25] fix: splitting zero times gives the string itself

The result used to be an empty list.
---
 include/Ystring/Algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Ystring/Algorithms.hpp b/include/Ystring/Algorithms.hpp
index 12eb689..64fa11d 100644
--- a/include/Ystring/Algorithms.hpp
+++ b/include/Ystring/Algorithms.hpp
@@ -520,7 +520,7 @@ namespace ystring
             if (!params.ignore_empty || !part.empty())
                 result.push_back(part);
         }
-        if (it)
+        if (it || params.max_splits == 0)
         {
             auto remainder = it.remainder();
             if (!params.ignore_empty || !remainder.empty())
-- 
2.43.0


From 5894d54daa22473666a59b0489529c4c5a6ff35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 15/25] fix: detect truncated escape sequences at the end of
 the string

The end of the sequence was beyond the end of the string, so incomplete
sequences were accepted and the result and the memory accesses extended
past the string.
---
 src/Ystring/Unescape.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index 0a2ebdf..29c9772 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -28,7 +28,8 @@ namespace ystring
         size_t find_first_where(std::string_view str, size_t start, size_t end,
                                 Pred pred)
         {
-            for (size_t i = start; i < std::min(str.size(), end); ++i)
+            end = std::min(str.size(), end);
+            for (size_t i = start; i < end; ++i)
             {
                 if (pred(str[i]))
                     return i;
-- 
2.43.0


From 72f34aa1bda80b45b2e8e6de53a7c7d6162be5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 16/25] fix: reject hex escape sequences that don't fit in 32
 bits

The value is uninitialized when std::from_chars reports out of range.
---
 src/Ystring/Unescape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index 29c9772..bb76af0 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -61,7 +61,7 @@ namespace ystring
             auto res = std::from_chars(str.data() + 2,
                                        str.data() + str.size(),
                                        value, 16);
-            if (res.ptr == str.data() + 2)
+            if (res.ptr == str.data() + 2 || res.ec != std::errc())
             {
                 YSTRING_THROW("Cannot parse escaped char: "
                               + std::string(str));
-- 
2.43.0


From 6043681741630452e38a209c1fd61868d92462e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 17/25] fix: only look for low surrogates in \\u escape
 sequences

Other escape sequences after a high surrogate were truncated before they
were parsed, and valid ones reported as incomplete.
---
 src/Ystring/Unescape.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index bb76af0..6dd8d52 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -97,11 +97,11 @@ namespace ystring
 
             // Look for the second part of a surrogate pair.
             auto str2 = str.substr(sub.end(), 6);
-            auto sub2 = find_first_escaped_char(str2);
-            if (!sub2 || sub2.offset != 0 || sub2.length != 6)
+            if (str2.size() < 6 || str2[0] != '\\' || str2[1] != 'u')
                 return {ch, sub};
 
-            if (str[sub.end() + 1] != 'u')
+            auto sub2 = find_first_escaped_char(str2);
+            if (!sub2 || sub2.offset != 0 || sub2.length != 6)
                 return {ch, sub};
 
             auto ch2 = parse_escaped_hex_char(str2);
-- 
2.43.0


From d54fb78401475cbb05e8826e164eed9bdab634fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 18/25] fix: restore the view in unescape_next whatever is
 thrown

Creating the error message can throw bad_alloc.
---
 src/Ystring/Unescape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index 6dd8d52..697ee39 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -357,7 +357,7 @@ namespace ystring
                 return pop_utf8_codepoint(str);
             }
         }
-        catch (YstringException&)
+        catch (...)
         {
             str = backup;
             throw;
-- 
2.43.0


From 075f2a7610901917f263649211ac9553c293f353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 19/25] fix: don't look at more than three continuation bytes
 in decode_prev

With more of them the shift exceeded the number of bits in the result,
which is undefined behaviour, and the whole run was scanned every time.
---
 include/Ystring/DecodeUtf8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Ystring/DecodeUtf8.hpp b/include/Ystring/DecodeUtf8.hpp
index 412db80..8b1639a 100644
--- a/include/Ystring/DecodeUtf8.hpp
+++ b/include/Ystring/DecodeUtf8.hpp
@@ -94,7 +94,7 @@ namespace ystring
         unsigned n = 0;
         while ((uint8_t(*it) & 0xC0u) == 0x80)
         {
-            if (it == begin)
+            if (it == begin || n == 3)
             {
                 for (unsigned i = 0; i <= n; ++i)
                     ++it;
-- 
2.43.0


From 39303a86f2f694aa88fd39398b15c70467a4a557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 20/25] fix: append all bytes of a code point or none of them

If the string had to grow in the middle of a code point, and there was no
memory for it, the string was left with an incomplete UTF-8 sequence.
---
 src/Ystring/Algorithms.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index 95d0b71..21b7057 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -30,8 +30,9 @@ namespace ystring
 
     std::string& append(std::string& str, char32_t chr)
     {
-        if (encode_utf8(chr, std::back_inserter(str)))
-            return str;
+        char buffer[4];
+        if (auto size = encode_utf8(chr, buffer, sizeof(buffer)))
+            return str.append(buffer, size);
         YSTRING_THROW("Invalid code point: " + std::to_string(size_t(chr)));
     }
 
-- 
2.43.0


From 3397de02619cd73fc305fea582cc8000d1a24118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 21/25] fix: only extend non-empty ranges in
 CodepointSet::add_codepoint

The code point was lost if the last range was empty (last < first) and
ended just before it, and adding 0 after a range ending at the maximum
value replaced that range.
---
 src/Ystring/Char32Set.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Ystring/Char32Set.cpp b/src/Ystring/Char32Set.cpp
index d033793..fdb4449 100644
--- a/src/Ystring/Char32Set.cpp
+++ b/src/Ystring/Char32Set.cpp
@@ -20,7 +20,8 @@ namespace ystring
 
     void CodepointSet::add_codepoint(char32_t cp)
     {
-        if (!ranges.empty() && ranges.back().second + 1 == cp)
+        if (!ranges.empty() && ranges.back().first < cp
+            && ranges.back().second == cp - 1)
             ranges.back().second = cp;
         else
             add_range(cp, cp);
-- 
2.43.0


From abba323b6ac82b6df90583db126b74f4a450674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 22/25] fix: unescape_next returns a high surrogate before an
 incomplete escape

An invalid \\u sequence after a complete one made it fail one character
too early, and unlike when the sequence is cut off by the end of the string.
---
 src/Ystring/Unescape.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index 697ee39..999a10d 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -267,8 +267,11 @@ namespace ystring
 
         // Look for the second part of a surrogate pair.
         auto str2 = str.substr(0, 6);
-        if (str2.size() < 6 || str2[0] != '\\' || str2[1] != 'u')
+        if (str2.size() < 6 || str2[0] != '\\' || str2[1] != 'u'
+            || find_end_of_hex_sequence(str2, 2, 6) != 6)
+        {
             return ch;
+        }
 
         str2.remove_prefix(2);
         auto ch2 = extract_hex_char(str2, 4, 4);
-- 
2.43.0


From b071088a5e8f3a823525cde45669febe82f8b5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 23/25] fix: don't read past the end of the newline and
 whitespace lists

---
 include/Ystring/Algorithms.hpp | 4 ++--
 src/Ystring/Algorithms.cpp     | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/Ystring/Algorithms.hpp b/include/Ystring/Algorithms.hpp
index 64fa11d..ab89701 100644
--- a/include/Ystring/Algorithms.hpp
+++ b/include/Ystring/Algorithms.hpp
@@ -26,8 +26,8 @@
 
 namespace ystring
 {
-    constexpr char32_t ASCII_WHITESPACE[] = {' ', '\t', '\n', '\r', '\f', '\v'};
-    constexpr char32_t COMMON_WHITESPACE[] = {' ', '\t', '\n', '\r'};
+    constexpr std::u32string_view ASCII_WHITESPACE = U" \t\n\r\f\v";
+    constexpr std::u32string_view COMMON_WHITESPACE = U" \t\n\r";
 
     inline std::string_view to_string_view(std::u8string_view str)
     {
diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index 21b7057..4c39094 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -17,7 +17,7 @@ namespace ystring
 {
     namespace
     {
-        constexpr char32_t NEWLINES[] = {
+        constexpr char32_t NEWLINES_ARRAY[] = {
             '\n',
             '\v',
             '\f',
@@ -26,6 +26,9 @@ namespace ystring
             LINE_SEPARATOR,
             PARAGRAPH_SEPARATOR
         };
+
+        constexpr std::u32string_view NEWLINES(NEWLINES_ARRAY,
+                                               std::size(NEWLINES_ARRAY));
     }
 
     std::string& append(std::string& str, char32_t chr)
-- 
2.43.0


From c3ecbee3fceb8b7257a817bf9e79f7148ba97bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 24/25] fix: count more than 2^32 continuation bytes in
 skip_next and skip_prev

---
 include/Ystring/DecodeUtf8.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/Ystring/DecodeUtf8.hpp b/include/Ystring/DecodeUtf8.hpp
index 8b1639a..40ee69a 100644
--- a/include/Ystring/DecodeUtf8.hpp
+++ b/include/Ystring/DecodeUtf8.hpp
@@ -129,7 +129,7 @@ namespace ystring
         if ((c & 0x80u) == 0)
             return true;
 
-        uint32_t n;
+        size_t n;
         if ((c & 0xE0u) == 0xC0)
             n = 1;
         else if ((c & 0xF0u) == 0xE0)
@@ -137,7 +137,7 @@ namespace ystring
         else if ((c & 0xF8u) == 0xF0)
             n = 3;
         else
-            n = UINT32_MAX;
+            n = SIZE_MAX;
 
         while (it != end && (uint8_t(*it) & 0xC0u) == 0x80 && n-- > 0)
             ++it;
@@ -151,7 +151,7 @@ namespace ystring
         if (it == begin)
             return false;
 
-        uint32_t n = 0;
+        size_t n = 0;
         while ((uint8_t(*(--it)) & 0xC0u) == 0x80)
         {
             if (it == begin)
@@ -160,7 +160,7 @@ namespace ystring
         }
 
         auto c = uint8_t(*it);
-        uint32_t m;
+        size_t m;
         if ((c & 0x80u) == 0)
             m = 1;
         else if ((c & 0xE0u) == 0xC0)
@@ -170,11 +170,11 @@ namespace ystring
         else if ((c & 0xF8u) == 0xF0)
             m = 4;
         else
-            m = UINT32_MAX;
+            m = SIZE_MAX;
 
         if (m >= n + 1)
             return true;
-        for (uint32_t i = 0; i < m; ++i)
+        for (size_t i = 0; i < m; ++i)
             ++it;
         return true;
     }
-- 
2.43.0


From 02e6d370f624600f09d9e8da7e7c4e5e345a0850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 25/25] fix: keep the TokenIterator unchanged when the token
 finder throws

The part before the finder's call was consumed already, so a repeated
next() skipped text or threw std::out_of_range.
---
 include/Ystring/TokenIterator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/Ystring/TokenIterator.hpp b/include/Ystring/TokenIterator.hpp
index b1ea289..cd7d45c 100644
--- a/include/Ystring/TokenIterator.hpp
+++ b/include/Ystring/TokenIterator.hpp
@@ -28,11 +28,14 @@ namespace ystring
 
         bool next()
         {
+            auto str = m_str;
             if (m_token)
-                m_str = m_str.substr(m_token.end());
+                str = str.substr(m_token.end());
             else if (m_token.start() != 0)
                 return false;
-            m_token = m_finder(m_str);
+            // Nothing is changed if the finder throws.
+            m_token = m_finder(str);
+            m_str = str;
             if (!m_token)
                 m_token.offset = SIZE_MAX;
             return true;
-- 
2.43.0

