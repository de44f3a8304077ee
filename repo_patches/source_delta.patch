From a678ccb3372686a7f81f255dc4efbe30e0556a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 01/68] fix: do not read past the end of text that is cut off
 inside a character

---
 include/Caitlyn/__Core/String/String.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index b192a9e..4322def 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -999,6 +999,14 @@ private:
         {
             throw std::runtime_error("Invalid UTF-8 sequence");
         }
+        for (SizeType i = 1; i < len; ++i)
+        {
+            // Never read past the terminator of truncated text
+            if (cstr[i] == '\0')
+            {
+                throw std::runtime_error("Incomplete UTF-8 sequence");
+            }
+        }
         return CharType{BasicString(cstr, len)};
     }
 
-- 
2.43.0


From 336a1c30e2bf0de5a32728bc8c44685284f78cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 02/68] fix: searching from past the end or for an empty string
 stays in bounds and follows the definition

---
 include/Caitlyn/__Core/String/String.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 4322def..c0d6de6 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -385,12 +385,20 @@ public:
     // Method to check if the string contains a given substring
     bool Contains(const String& substring) const
     {
-        return std::search(data_.begin(), data_.end(), substring.begin(), substring.end()) != data_.end();
+        return Find(substring) != NPosition;
     }
 
     // Method to find the first occurrence of a substring
     SizeType Find(const String& substr, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
+        if (substr.IsEmpty())
+        {
+            return pos;
+        }
         const auto it =
             std::search(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), substr.begin(), substr.end());
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
-- 
2.43.0


From 1d8168db6430b7dff439e08982b7f5dfc9017dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 03/68] fix: ReverseFind returns where the match starts, not
 where it ends

---
 include/Caitlyn/__Core/String/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index c0d6de6..ea5e46b 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -407,7 +407,7 @@ public:
     // Method to find the last occurrence of a substring
     SizeType ReverseFind(const String& substr, SizeType pos = NPosition) const
     {
-        if (substr.size() > size())
+        if (substr.size() > size() || IsEmpty())
         {
             return NPosition;
         }
@@ -420,7 +420,7 @@ public:
             data_.rend(),
             substr.rbegin(),
             substr.rend());
-        return (it != data_.rend()) ? size() - 1 - std::distance(data_.rbegin(), it) : NPosition;
+        return (it != data_.rend()) ? size() - substr.size() - std::distance(data_.rbegin(), it) : NPosition;
     }
 
     // Substring method
-- 
2.43.0


From 1cc9740074ca324c17a0e3060fc921cd8daebfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 04/68] fix: FindIf and FindIfNot find nothing from a position
 past the end

---
 include/Caitlyn/__Core/String/String.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index ea5e46b..b44c13d 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -450,6 +450,10 @@ public:
     template <typename Predicate>
     SizeType FindIf(Predicate pred, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
         auto it = std::find_if(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), pred);
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
     }
@@ -458,6 +462,10 @@ public:
     template <typename Predicate>
     SizeType FindIfNot(Predicate pred, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
         auto it = std::find_if_not(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), pred);
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
     }
-- 
2.43.0


From fad9008a8561b29cf52b0e9462e6d167acc8b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 05/68] fix: a string can be appended to and inserted into
 itself

---
 include/Caitlyn/__Core/String/String.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index b44c13d..bb8f2e4 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -241,7 +241,8 @@ public:
 public:
     String& operator+=(const String& str)
     {
-        data_.insert(data_.end(), str.data_.begin(), str.data_.end());
+        const DataType appended{str.data_};
+        data_.insert(data_.end(), appended.begin(), appended.end());
         return *this;
     }
 
@@ -519,7 +520,8 @@ public:
         {
             throw std::out_of_range("Position out of range");
         }
-        data_.insert(data_.begin() + static_cast<DifferenceType>(pos), str.data_.begin(), str.data_.end());
+        const DataType inserted{str.data_};
+        data_.insert(data_.begin() + static_cast<DifferenceType>(pos), inserted.begin(), inserted.end());
     }
 
     void Insert(const SizeType pos, const SizeType count, const CharType& ch)
-- 
2.43.0


From a63c623f20c4885c2992f44bffc09a66f1aab377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 06/68] fix: extended Greek letters are uppercased to their own
 capitals

---
 include/Caitlyn/__Core/Char/Utility.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Utility.h b/include/Caitlyn/__Core/Char/Utility.h
index 8e8b51a..c2b5c28 100644
--- a/include/Caitlyn/__Core/Char/Utility.h
+++ b/include/Caitlyn/__Core/Char/Utility.h
@@ -167,51 +167,51 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
     // Additional
     if (codePoint >= 0x1F00 && codePoint <= 0x1F07)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F10 && codePoint <= 0x1F15)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F20 && codePoint <= 0x1F27)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F30 && codePoint <= 0x1F37)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F40 && codePoint <= 0x1F45)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F60 && codePoint <= 0x1F67)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F70 && codePoint <= 0x1F71)
     {
-        return codePoint + 0x56;
+        return codePoint + 0x4A;
     }
     if (codePoint >= 0x1F72 && codePoint <= 0x1F75)
     {
-        return codePoint + 0x64;
+        return codePoint + 0x56;
     }
     if (codePoint >= 0x1F76 && codePoint <= 0x1F77)
     {
-        return codePoint + 0x80;
+        return codePoint + 0x64;
     }
     if (codePoint >= 0x1F78 && codePoint <= 0x1F79)
     {
-        return codePoint + 0x7E;
+        return codePoint + 0x80;
     }
     if (codePoint >= 0x1F7A && codePoint <= 0x1F7B)
     {
-        return codePoint + 0x7C;
+        return codePoint + 0x70;
     }
     if (codePoint >= 0x1F7C && codePoint <= 0x1F7D)
     {
-        return codePoint + 0x7A;
+        return codePoint + 0x7E;
     }
     // Ranges for Latin characters with diacritics
     if (codePoint >= 0x0100 && codePoint <= 0x012F)
-- 
2.43.0


From 612ff472d4ae8bb1783937dc46880c43d8b1cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 07/68] fix: lowercasing leaves everything above U+1FEC alone
 and maps extended Greek correctly

---
 include/Caitlyn/__Core/Char/Utility.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Utility.h b/include/Caitlyn/__Core/Char/Utility.h
index c2b5c28..f79d321 100644
--- a/include/Caitlyn/__Core/Char/Utility.h
+++ b/include/Caitlyn/__Core/Char/Utility.h
@@ -311,27 +311,31 @@ inline CodePoint ToLowercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x1FBA && codePoint <= 0x1FBB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x4A;
     }
     if (codePoint >= 0x1FC8 && codePoint <= 0x1FCB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x56;
     }
     if (codePoint >= 0x1FD8 && codePoint <= 0x1FD9)
     {
         return codePoint - 0x08;
     }
+    if (codePoint >= 0x1FDA && codePoint <= 0x1FDB)
+    {
+        return codePoint - 0x64;
+    }
     if (codePoint >= 0x1FE8 && codePoint <= 0x1FE9)
     {
         return codePoint - 0x08;
     }
     if (codePoint >= 0x1FEA && codePoint <= 0x1FEB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x70;
     }
-    if (codePoint >= 0x1FEC)
+    if (codePoint == 0x1FEC)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x07;
     }
     // Ranges for Latin characters with diacritics
     if (codePoint >= 0x0100 && codePoint <= 0x012F)
-- 
2.43.0


From 6f47de716391b9e437db297fde50f466f95df606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 08/68] fix: in U+0139..U+0148 the odd code points are the
 capitals

---
 include/Caitlyn/__Core/Char/Utility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Utility.h b/include/Caitlyn/__Core/Char/Utility.h
index f79d321..5fe65ea 100644
--- a/include/Caitlyn/__Core/Char/Utility.h
+++ b/include/Caitlyn/__Core/Char/Utility.h
@@ -232,7 +232,7 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x0139 && codePoint <= 0x0148)
     {
-        if (codePoint % 2 == 0)
+        if (codePoint % 2 != 0)
         {
             return codePoint;
         }
@@ -356,7 +356,7 @@ inline CodePoint ToLowercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x0139 && codePoint <= 0x0148)
     {
-        if (codePoint % 2 != 0)
+        if (codePoint % 2 == 0)
         {
             return codePoint;
         }
-- 
2.43.0


From 851219908e3f1ce1fd7d5283e86034b0d99072af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 09/68] fix: uppercasing does not turn the letter U+0149 into
 an apostrophe

---
 include/Caitlyn/__Core/Char/Utility.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Utility.h b/include/Caitlyn/__Core/Char/Utility.h
index 5fe65ea..f403aec 100644
--- a/include/Caitlyn/__Core/Char/Utility.h
+++ b/include/Caitlyn/__Core/Char/Utility.h
@@ -138,8 +138,7 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
 {
     static const std::unordered_map<CodePoint, CodePoint> SpecialCaseUpper{
         {CodePoint{0x00DF}, CodePoint{0x1E9E}}, // ß -> ẞ
-        {CodePoint{0x0131}, CodePoint{0x0049}}, // ı -> I
-        {CodePoint{0x0149}, CodePoint{0x02BC}}  // ŉ -> ’n
+        {CodePoint{0x0131}, CodePoint{0x0049}}  // ı -> I
     };
     if (SpecialCaseUpper.find(codePoint) != SpecialCaseUpper.end())
     {
-- 
2.43.0


From 8e613b9dabff2fa4a407e42d610f6a624135616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 10/68] fix: IsDigit knows the Sinhala digits like every other
 BMP digit

---
 include/Caitlyn/__Core/Char/Utility.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Caitlyn/__Core/Char/Utility.h b/include/Caitlyn/__Core/Char/Utility.h
index f403aec..b606bb6 100644
--- a/include/Caitlyn/__Core/Char/Utility.h
+++ b/include/Caitlyn/__Core/Char/Utility.h
@@ -86,6 +86,8 @@ inline bool IsDigit(const CodePoint codePoint)
         (codePoint >= 0x0CE6 && codePoint <= 0x0CEF) ||
         // MALAYALAM DIGIT ZERO - MALAYALAM DIGIT NINE
         (codePoint >= 0x0D66 && codePoint <= 0x0D6F) ||
+        // SINHALA LITH DIGIT ZERO - SINHALA LITH DIGIT NINE
+        (codePoint >= 0x0DE6 && codePoint <= 0x0DEF) ||
         // THAI DIGIT ZERO - THAI DIGIT NINE
         (codePoint >= 0x0E50 && codePoint <= 0x0E59) ||
         // LAO DIGIT ZERO - LAO DIGIT NINE
-- 
2.43.0


From 4070697a984bb331b0069aca1fe6eb03fcdb64e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 11/68] fix: a format specification after an index applies to
 the argument of that index

---
 include/Caitlyn/__Core/String/String.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index bb8f2e4..ba0847c 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -629,11 +629,8 @@ public:
 
                         if (!format_spec.IsEmpty())
                         {
-                            if (format_spec[0] == Def::Colon)
-                            {
-                                auto parsed_spec = Formatter::MakeSpacifier(format_spec);
-                                result << Formatter::Process(arguments[auto_index], parsed_spec).str();
-                            }
+                            auto parsed_spec = Formatter::MakeSpacifier(format_spec);
+                            result << Formatter::Process(arguments[arg_index], parsed_spec).str();
                         }
                         else
                         {
-- 
2.43.0


From 28ca161a19de2f9402da96b2df8e8b81198dceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 12/68] fix: a placeholder without an argument is an error
 instead of a read past the arguments

---
 include/Caitlyn/__Core/String/String.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index ba0847c..7345e19 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -621,7 +621,7 @@ public:
                         {
                             throw Formatter::FormatError{"Invalid argument index"};
                         }
-                        if (arg_index > arguments.size() - 1)
+                        if (arg_index >= arguments.size())
                         {
                             throw Formatter::FormatError{"Argument index out of range"};
                         }
@@ -639,6 +639,14 @@ public:
                     }
                     else if (spec.NotEmpty() && spec[spec_begin] == Def::Colon)
                     {
+                        if (arguments.size() > 1)
+                        {
+                            arg_index = auto_index++;
+                        }
+                        if (arg_index >= arguments.size())
+                        {
+                            throw Formatter::FormatError{"Missing argument in format string"};
+                        }
                         auto parsed_spec = Formatter::MakeSpacifier(spec);
                         result << Formatter::Process(arguments[arg_index], parsed_spec).str();
                     }
@@ -646,7 +654,7 @@ public:
                     {
                         result << arguments[0].str();
                     }
-                    else if (arguments.size() > 1)
+                    else if (auto_index < arguments.size())
                     {
                         result << arguments[auto_index++].str();
                     }
-- 
2.43.0


From b53b55dfa7780e559c3c0cd6799cc65987c2a832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 13/68] fix: an empty format specification is not read past its
 end

---
 include/Caitlyn/__Core/String/String.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 7345e19..aab374d 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -809,6 +809,10 @@ private:
                     ++pos;
                 }
             }
+            else if (pos >= config.size())
+            {
+                return;
+            }
             else if (config[pos] == Def::LessThanSign)
             {
                 spec.align = Alignment::Left;
-- 
2.43.0


From a3c70c48a8a63a6cdeea02348b50d4498f2bdddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 14/68] fix: only ASCII digits are numbers in a format, and a
 number too large is a format error

---
 include/Caitlyn/__Core/String/String.h | 30 +++++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index aab374d..809528c 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -606,10 +606,10 @@ public:
                     SizeType arg_index = 0;
                     constexpr SizeType spec_begin = 0;
 
-                    if (spec.NotEmpty() && IsDigit(spec[spec_begin].GetCodePoint()))
+                    if (spec.NotEmpty() && ToDigit(spec[spec_begin].GetCodePoint()) >= 0)
                     {
                         SizeType index_end = spec_begin;
-                        while (index_end < spec.size() && IsDigit(spec[index_end].GetCodePoint()))
+                        while (index_end < spec.size() && ToDigit(spec[index_end].GetCodePoint()) >= 0)
                         {
                             ++index_end;
                         }
@@ -832,10 +832,17 @@ private:
 
         static void ParseWidth(const String& config, FormatSpecifier& spec, SizeType& pos)
         {
-            if (pos < config.size() && IsDigit(config[pos].GetCodePoint()))
+            if (pos < config.size() && ToDigit(config[pos].GetCodePoint()) >= 0)
             {
-                spec.width = std::stoul(config.Substring(pos).str());
-                while (pos < config.size() && IsDigit(config[pos].GetCodePoint()))
+                try
+                {
+                    spec.width = std::stoul(config.Substring(pos).str());
+                }
+                catch (const std::out_of_range&)
+                {
+                    throw FormatError{"Invalid width"};
+                }
+                while (pos < config.size() && ToDigit(config[pos].GetCodePoint()) >= 0)
                 {
                     ++pos;
                 }
@@ -847,10 +854,17 @@ private:
             if (pos < config.size() && config[pos] == Def::FullStop)
             {
                 ++pos;
-                if (pos < config.size() && IsDigit(config[pos].GetCodePoint()))
+                if (pos < config.size() && ToDigit(config[pos].GetCodePoint()) >= 0)
                 {
-                    spec.precision = std::stoi(config.Substring(pos).str());
-                    while (pos < config.size() && IsDigit(config[pos].GetCodePoint()))
+                    try
+                    {
+                        spec.precision = std::stoi(config.Substring(pos).str());
+                    }
+                    catch (const std::out_of_range&)
+                    {
+                        throw FormatError{"Invalid precision"};
+                    }
+                    while (pos < config.size() && ToDigit(config[pos].GetCodePoint()) >= 0)
                     {
                         ++pos;
                     }
-- 
2.43.0


From 0b06386e57e57dca7a4266be5114be13850ffd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 15/68] fix: a number formatted without fraction digits has no
 trailing point

---
 include/Caitlyn/__Core/String/String.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 809528c..072b7fa 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -953,12 +953,13 @@ private:
             std::ostringstream oss;
             const auto dot_index = value.Find(Def::FullStop);
 
-            if (dot_index != NPosition)
+            if (dot_index != NPosition && spec.precision >= 0)
             {
-                oss << value.Substring(0, dot_index + 1).str();
+                oss << value.Substring(0, dot_index).str();
 
                 if (spec.precision > 0)
                 {
+                    oss << Def::FullStop;
                     const SizeType limit = dot_index + 1 + spec.precision;
                     SizeType index = dot_index + 1;
 
-- 
2.43.0


From 2b545242f8385cb9873e9521478f2fe5f860f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 16/68] fix: repeating a text zero times gives an empty text

---
 include/Caitlyn/__Core/String/Utility.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 1533432..7bcf2cc 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -42,10 +42,6 @@ inline std::vector<std::string> Split(const std::string& text, const char delim)
 
 inline std::string Repeat(const std::string& str, const size_t count)
 {
-    if (count < 2)
-    {
-        return str;
-    }
     std::stringstream ss;
     for (size_t i = 0; i < count; ++i)
     {
-- 
2.43.0


From 4780fbc65d1afeb13e16c2c6d139004ccc1679a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 17/68] fix: the last non-space character may be the first one,
 and empty text has none

---
 include/Caitlyn/__Core/String/Utility.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 7bcf2cc..9e2403c 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -162,11 +162,11 @@ inline size_t FindFirstNonSpace(const String& str)
 
 inline size_t FindLastNonSpace(const String& str)
 {
-    for (size_t i = str.size() - 1; i > 0; --i)
+    for (size_t i = str.size(); i > 0; --i)
     {
-        if (!IsSpace(str[i].GetCodePoint()))
+        if (!IsSpace(str[i - 1].GetCodePoint()))
         {
-            return i;
+            return i - 1;
         }
     }
     return str.size();
-- 
2.43.0


From b221c9becd8943b971ffc098ef818c3a15b24bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 18/68] fix: an escape sequence that is not valid is kept as it
 is, not with its letter doubled

---
 include/Caitlyn/__Core/String/Utility.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 9e2403c..62b2c4b 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -126,12 +126,14 @@ inline String EscapeString(const String& str)
                 {
                     // Incomplete escape sequence, handle it as an error
                     oss << Def::ReverseSolidus << str[i + 1];
+                    ++i;
                 }
             }
             else
             {
                 // Invalid escape sequence, handle it as an error
                 oss << Def::ReverseSolidus << str[i + 1];
+                ++i;
             }
         }
         else
-- 
2.43.0


From 2f4a67e8512b585aa07628576e93c1fe579e4760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 19/68] fix: a \u escape is the character with that code, not
 one byte of it

---
 include/Caitlyn/__Core/String/Utility.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 62b2c4b..7537ed3 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -115,11 +115,12 @@ inline String EscapeString(const String& str)
             }
             else if (str[i + 1] == Def::LatinSmallLetterU)
             {
-                if (i + 5 < str.size())
+                const auto hex = i + 5 < str.size() ? str.Substring(i + 2, 4).str() : std::string{};
+
+                if (!hex.empty() && hex.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos)
                 {
-                    auto hex = str.Substring(i + 2, 4).str();
                     // Convert the hexadecimal representation to a character
-                    oss << static_cast<char>(std::stoi(hex, nullptr, 16));
+                    oss << Char{static_cast<CodePoint>(std::stoi(hex, nullptr, 16))};
                     i += 5; // Skip the escaped sequence
                 }
                 else
-- 
2.43.0


From bdb4778fcebd0009f4421022b0b75280215e87d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 20/68] fix: appending to a copied builder continues its text
 instead of overwriting it

---
 include/Caitlyn/__Core/String/StringBuilder.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/StringBuilder.h b/include/Caitlyn/__Core/String/StringBuilder.h
index abd42e6..d7b702b 100644
--- a/include/Caitlyn/__Core/String/StringBuilder.h
+++ b/include/Caitlyn/__Core/String/StringBuilder.h
@@ -51,8 +51,9 @@ public:
         data_ << String::Format(str, std::forward<Args>(args)...);
     }
 
-    StringBuilder(const StringBuilder& other) : data_{other.data_.str()}
+    StringBuilder(const StringBuilder& other)
     {
+        data_ << other.data_.str();
     }
 
     StringBuilder(StringBuilder&& other) noexcept : data_{std::move(other.data_)}
-- 
2.43.0


From 6e24a1ec16700f027c6b421fbd874db2f74a3957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 21/68] fix: the empty pattern occurs in every text

---
 include/Caitlyn/__Core/String/Algorithms/Kmp.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Core/String/Algorithms/Kmp.h b/include/Caitlyn/__Core/String/Algorithms/Kmp.h
index daf313b..9b87377 100644
--- a/include/Caitlyn/__Core/String/Algorithms/Kmp.h
+++ b/include/Caitlyn/__Core/String/Algorithms/Kmp.h
@@ -49,6 +49,10 @@ inline bool kmp(const std::string& pattern, const std::string& text)
 {
     const size_t text_size = text.size();
     const size_t pattern_size = pattern.size();
+    if (pattern_size == 0)
+    {
+        return true;
+    }
     const auto failure = __Detail::get_kmp_failure_vec(pattern);
 
     for (size_t i = 0, j = 0; i < text_size; ++i)
-- 
2.43.0


From 24889b17b43b892db753c8a1f5bbce7348b2241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 22/68] fix: of two negative big integers the one of larger
 magnitude is the smaller

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 6daacbe..102e789 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -353,13 +353,13 @@ public:
         }
         if (digits_.size() != other.digits_.size())
         {
-            return digits_.size() < other.digits_.size();
+            return (digits_.size() < other.digits_.size()) != is_negative_;
         }
         for (SizeType i = digits_.size(); i > 0; --i)
         {
             if (digits_[i - 1] != other.digits_[i - 1])
             {
-                return digits_[i - 1] < other.digits_[i - 1];
+                return (digits_[i - 1] < other.digits_[i - 1]) != is_negative_;
             }
         }
         return false;
-- 
2.43.0


From 408a67d587aa5c9cea3da37c352db78e56a0dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 23/68] fix: adding big integers of different sign keeps the
 sign of the larger magnitude, and zero has none

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 102e789..dc0e5b3 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -142,10 +142,13 @@ public:
 
         if (abs_this.GreaterThan(abs_other))
         {
-            return abs_this.Subtract(abs_other);
+            BigInteger result = abs_this.Subtract(abs_other);
+            result.is_negative_ = is_negative_;
+            return result;
         }
         BigInteger result = abs_other.Subtract(abs_this);
         result.is_negative_ = other.is_negative_;
+        result.RemoveLeadingZeros();
         return result;
     }
 
-- 
2.43.0


From c30709d6557d907cbe0cb307b9097508692fd746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 24/68] fix: subtracting a big integer adds its negation,
 whatever the signs

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index dc0e5b3..726094c 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -156,17 +156,20 @@ public:
     {
         if (this->is_negative_ != other.is_negative_)
         {
-            BigInteger result = Add(other);
-            result.is_negative_ = this->is_negative_;
-            return result;
+            BigInteger negated = other;
+            negated.is_negative_ = !other.is_negative_;
+            negated.RemoveLeadingZeros();
+            return Add(negated);
         }
         if (Equal(other))
         {
             return BigInteger{"0"};
         }
         const bool result_is_negative = LessThan(other);
-        const BigInteger& larger = result_is_negative ? other : *this;
-        const BigInteger& smaller = result_is_negative ? *this : other;
+        // Of two negative numbers the smaller one has the larger magnitude
+        const bool other_is_larger = result_is_negative != is_negative_;
+        const BigInteger& larger = other_is_larger ? other : *this;
+        const BigInteger& smaller = other_is_larger ? *this : other;
 
         BigInteger result;
         result.is_negative_ = result_is_negative;
-- 
2.43.0


From ee48c479666a5fa8357f64d6fcca6ceb7b6e299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 25/68] fix: a big integer remainder of zero is not negative

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 726094c..4a82367 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -269,6 +269,7 @@ public:
         {
             result.is_negative_ = is_negative_;
         }
+        result.RemoveLeadingZeros();
         return result;
     }
 
-- 
2.43.0


From 636be60cd44c7d498ad44b3bede42fe62c157816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 26/68] fix: a sign alone and digits outside ASCII are not big
 integers

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 4a82367..2d0b9ed 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -68,9 +68,13 @@ public:
                 start = 1;
             }
         }
+        if (start == number.size())
+        {
+            throw std::invalid_argument{"Invalid number format"};
+        }
         for (SizeType i = start; i < number.size(); ++i)
         {
-            if (!IsDigit(number[i].GetCodePoint()))
+            if (ToDigit(number[i].GetCodePoint()) < 0)
             {
                 throw std::invalid_argument{"Invalid number format"};
             }
-- 
2.43.0


From 586be1fe82742f4f201f71cae41576c662b70f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 27/68] fix: JSON text that consists of spaces is an error
 instead of a read past its end

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 4f39650..71bdf85 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -42,6 +42,13 @@ public:
         const auto first = FindFirstNonSpace(json);
         const auto last = FindLastNonSpace(json);
 
+        if (first == json.size() || last == json.size())
+        {
+            parser.SetError(JsonError::InvalidJson);
+            parser.SetErrorPosition(0);
+            return parser;
+        }
+
         if (json[first] != Def::LeftCurlyBracket)
         {
             parser.SetError(JsonError::InvalidJson);
-- 
2.43.0


From 1db627e1cee4b964d8789a8e717acfe4dcfe3c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 28/68] fix: the JSON parser does not look at characters past
 the end of the text

---
 .../__Serializing/Json/Types/JsonParser.h     | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 71bdf85..54242c4 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -134,12 +134,12 @@ private:
         {
             SkipSpace();
 
-            if (json_[position_] == Def::RightCurlyBracket)
+            if (Current(Def::RightCurlyBracket))
             {
                 Next();
                 return result;
             }
-            if (json_[position_] == Def::QuotationMark)
+            if (Current(Def::QuotationMark))
             {
                 Next();
                 const auto key_end = json_.Find(Def::QuotationMark, position_);
@@ -154,7 +154,7 @@ private:
                 position_ = key_end + 1;
 
                 SkipSpace();
-                if (json_[position_] != Def::Colon)
+                if (!Current(Def::Colon))
                 {
                     SetError(JsonError::MissingColon);
                     SetErrorPosition(position_);
@@ -165,19 +165,19 @@ private:
                 result[key] = ParseValue();
 
                 SkipSpace();
-                if (json_[position_] == Def::Comma)
+                if (Current(Def::Comma))
                 {
                     Next();
                     SkipSpace();
 
-                    if (json_[position_] == Def::RightCurlyBracket)
+                    if (Current(Def::RightCurlyBracket))
                     {
                         SetError(JsonError::TrailingComma);
                         SetErrorPosition(position_);
                         return JsonData{};
                     }
                 }
-                else if (json_[position_] == Def::RightCurlyBracket)
+                else if (Current(Def::RightCurlyBracket))
                 {
                     Next();
                     return result;
@@ -211,7 +211,7 @@ private:
         {
             SkipSpace();
 
-            if (json_[position_] == Def::RightSquareBracket)
+            if (Current(Def::RightSquareBracket))
             {
                 Next();
                 return result;
@@ -220,19 +220,19 @@ private:
             result.Append(value);
 
             SkipSpace();
-            if (json_[position_] == Def::Comma)
+            if (Current(Def::Comma))
             {
                 Next();
                 SkipSpace();
 
-                if (json_[position_] == Def::RightSquareBracket)
+                if (Current(Def::RightSquareBracket))
                 {
                     SetError(JsonError::TrailingComma);
                     SetErrorPosition(position_);
                     return JsonData{};
                 }
             }
-            else if (json_[position_] == Def::RightSquareBracket)
+            else if (Current(Def::RightSquareBracket))
             {
                 Next();
                 return result;
@@ -341,7 +341,7 @@ private:
             }
             Next();
         }
-        if (json_[position_] == Def::QuotationMark)
+        if (Current(Def::QuotationMark))
         {
             Next();
             return escaped_stream.str();
@@ -417,6 +417,12 @@ private:
         }
     }
 
+    template <typename T>
+    bool Current(const T character) const
+    {
+        return position_ < json_.size() && json_[position_] == character;
+    }
+
     void Next(const SizeType count = 1)
     {
         position_ += count;
-- 
2.43.0


From a7b3ea575d2d891c5c4d9766d1bc426777fdfbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 29/68] fix: nothing but space may follow the JSON document

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 54242c4..42739b7 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -62,6 +62,13 @@ public:
             return parser;
         }
         parser.data_ = parser.ParseValue();
+        parser.SkipSpace();
+
+        if (!parser.HasError() && parser.position_ < json.size())
+        {
+            parser.SetError(JsonError::UnexpectedCharacter);
+            parser.SetErrorPosition(parser.position_);
+        }
         return parser;
     }
 
-- 
2.43.0


From 3487299c68c87c9550e33a5883751c2d210d5ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 30/68] fix: a JSON string keeps the character after an escape
 sequence

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 42739b7..ae3ba3e 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -340,7 +340,6 @@ private:
                     SetErrorPosition(position_);
                     return JsonData{};
                 }
-                Next();
             }
             else
             {
-- 
2.43.0


From f3404b787b221f126ca2414f4b467c19acb5e5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 31/68] fix: JSON literals are recognised after characters
 outside ASCII

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index ae3ba3e..afcb2f3 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -258,7 +258,7 @@ private:
 
     JsonData ParseNull()
     {
-        if (json_.str().compare(position_, 4, String::ValueOf(nullptr)) == 0)
+        if (json_.Substring(position_, 4) == String::ValueOf(nullptr))
         {
             Next(4);
             return MakeNull();
@@ -359,12 +359,12 @@ private:
 
     JsonData ParseBoolean()
     {
-        if (json_.str().compare(position_, 4, String::ValueOf(true)) == 0)
+        if (json_.Substring(position_, 4) == String::ValueOf(true))
         {
             Next(4);
             return true;
         }
-        if (json_.str().compare(position_, 5, String::ValueOf(false)) == 0)
+        if (json_.Substring(position_, 5) == String::ValueOf(false))
         {
             Next(5);
             return false;
-- 
2.43.0


From db7a3843e71f1540d15fc058faa82ab223859b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 32/68] fix: a JSON number with a fraction is read as such, and
 one with anything after it is an error

---
 .../Caitlyn/__Serializing/Json/Types/JsonParser.h    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index afcb2f3..2e100e1 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -388,15 +388,21 @@ private:
         const String number_str = json_.Substring(position_, end_number - position_);
         try
         {
-            if (number_str.Find(Def::PlusSign) != String::NPosition ||
+            const auto number = number_str.str();
+            std::size_t used = 0;
+            if (number_str.Find(Def::FullStop) != String::NPosition ||
                 number_str.Find(Def::LatinSmallLetterE) != String::NPosition ||
                 number_str.Find(Def::LatinCapitalLetterE) != String::NPosition)
             {
-                result = std::stod(number_str.str());
+                result = std::stod(number, &used);
             }
             else
             {
-                result = std::stoll(number_str.str());
+                result = std::stoll(number, &used);
+            }
+            if (used != number.size())
+            {
+                throw std::invalid_argument{"Invalid number"};
             }
         }
         catch (const std::out_of_range&)
-- 
2.43.0


From a0dff852240bf40500a374adf66ef8b72bcbb064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 33/68] fix: JSON keys are read like any other JSON string

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 2e100e1..dbcb021 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -148,17 +148,12 @@ private:
             }
             if (Current(Def::QuotationMark))
             {
-                Next();
-                const auto key_end = json_.Find(Def::QuotationMark, position_);
+                const String key = ParseString().GetString();
 
-                if (key_end == String::NPosition)
+                if (HasError())
                 {
-                    SetError(JsonError::UnterminatedString);
-                    SetErrorPosition(position_);
                     return JsonData{};
                 }
-                String key = json_.Substring(position_, key_end - position_);
-                position_ = key_end + 1;
 
                 SkipSpace();
                 if (!Current(Def::Colon))
-- 
2.43.0


From 2acc5fb2899bf7cf54c75c3af9983d9b9688f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 34/68] fix: a JSON \u escape is the character with that code,
 not one byte of it

---
 .../__Serializing/Json/Types/JsonParser.h     | 50 ++++++++++++++++---
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index dbcb021..80f9c64 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -315,19 +315,29 @@ private:
                         SetErrorPosition(position_);
                         return JsonData{};
                     }
-                    String hex_code = json_.Substring(position_ + 1, 4);
-                    try
+                    uint32_t code_point = 0;
+                    bool valid = ParseHexCode(code_point);
+                    position_ += 4;
+
+                    // A character outside the BMP is written as a surrogate pair
+                    if (valid && code_point >= 0xd800 && code_point <= 0xdfff)
                     {
-                        const uint32_t code_point = std::stoul(hex_code.str(), nullptr, 16);
-                        escaped_stream << static_cast<char>(code_point);
+                        uint32_t low = 0;
+                        Next();
+                        valid = code_point < 0xdc00 && Current(Def::ReverseSolidus);
+                        Next();
+                        valid = valid && Current(Def::LatinSmallLetterU) && position_ + 4 < json_.size() &&
+                                ParseHexCode(low) && low >= 0xdc00 && low <= 0xdfff;
+                        position_ += 4;
+                        code_point = 0x10000 + ((code_point - 0xd800) << 10) + (low - 0xdc00);
                     }
-                    catch (const std::exception&)
+                    if (!valid)
                     {
                         SetError(JsonError::InvalidEscapeSequence);
                         SetErrorPosition(position_);
                         return JsonData{};
                     }
-                    position_ += 4;
+                    escaped_stream << Char{code_point};
                 }
                 else
                 {
@@ -416,6 +426,34 @@ private:
         return result;
     }
 
+    // Reads the four hexadecimal digits after the current character
+    bool ParseHexCode(uint32_t& code_point) const
+    {
+        code_point = 0;
+        for (SizeType i = position_ + 1; i <= position_ + 4; ++i)
+        {
+            const uint32_t digit = json_[i].GetCodePoint();
+
+            if (digit >= '0' && digit <= '9')
+            {
+                code_point = code_point * 16 + (digit - '0');
+            }
+            else if (digit >= 'a' && digit <= 'f')
+            {
+                code_point = code_point * 16 + (digit - 'a' + 10);
+            }
+            else if (digit >= 'A' && digit <= 'F')
+            {
+                code_point = code_point * 16 + (digit - 'A' + 10);
+            }
+            else
+            {
+                return false;
+            }
+        }
+        return true;
+    }
+
     void SkipSpace()
     {
         while (position_ < json_.size() && IsSpace(json_[position_].GetCodePoint()))
-- 
2.43.0


From d4f233b5935b8cb4dcd2481598855ae9a6b44e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 35/68] fix: a JSON string value is destroyed with its value,
 and so is what a move leaves behind

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index b5d8a48..6bfc04e 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -532,6 +532,7 @@ private:
             default:
                 break;
         }
+        other.DestroyUnion();
         other.type_ = JsonClass::Null;
         new (&other.data_.null_value) NullType{};
     }
@@ -554,6 +555,9 @@ private:
                 }
                 data_.object_value.~ObjectType();
                 break;
+            case JsonClass::String:
+                data_.string_value.~StringType();
+                break;
             default:
                 break;
         }
-- 
2.43.0


From e9a1f6c376a0fdd2a7f36a504adf91afc37df406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 36/68] fix: a JSON value can be assigned one of its own
 members or elements

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 6bfc04e..97a10b3 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -101,9 +101,10 @@ public:
     {
         if (this != &other)
         {
+            JsonData copy{other};
             DestroyUnion();
-            type_ = other.type_;
-            CopyUnion(other);
+            type_ = copy.type_;
+            MoveUnion(std::move(copy));
         }
         return *this;
     }
@@ -112,9 +113,10 @@ public:
     {
         if (this != &other)
         {
+            JsonData moved{std::move(other)};
             DestroyUnion();
-            type_ = other.type_;
-            MoveUnion(std::move(other));
+            type_ = moved.type_;
+            MoveUnion(std::move(moved));
         }
         return *this;
     }
-- 
2.43.0


From badf499856a9b800efe16980aea71a67a5f14092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 37/68] fix: indexing a JSON array past its end adds null
 elements instead of writing to null pointers

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 97a10b3..1738f70 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -176,13 +176,9 @@ public:
     {
         SetType(JsonClass::Array);
         auto& array = data_.array_value;
-        if (index >= array.size())
+        while (index >= array.size())
         {
-            array.resize(index + 1, nullptr);
-        }
-        if (!array[index])
-        {
-            new (array[index]) JsonData{};
+            array.emplace_back(new JsonData{});
         }
         return *array[index];
     }
-- 
2.43.0


From 830de0186b1c33e5b75659d1457de4b304bc8769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 38/68] fix: constant access to a JSON value of another type
 throws instead of reading it as an object or array

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 1738f70..799c4ba 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -191,6 +191,10 @@ public:
 
     const JsonData& At(const StringType& key) const
     {
+        if (type_ != JsonClass::Object)
+        {
+            throw std::logic_error("Trying to access non-object types as object");
+        }
         const auto& object = data_.object_value;
         const auto it = std::find_if(
             object.begin(),
@@ -211,6 +215,10 @@ public:
 
     const JsonData& At(const SizeType index) const
     {
+        if (type_ != JsonClass::Array)
+        {
+            throw std::logic_error("Trying to access non-array types as array");
+        }
         return *data_.array_value.at(index);
     }
 
-- 
2.43.0


From a3e7d1292052af78cef0e12f52a2b4a78945e38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 39/68] fix: JSON numbers and booleans are made as such, not as
 strings

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 799c4ba..f5ec594 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -664,17 +664,17 @@ inline __Detail::JsonData MakeString(const std::string& value)
 
 inline __Detail::JsonData MakeFloating(const __Detail::JsonData::FloatingType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 inline __Detail::JsonData MakeIntegral(const __Detail::JsonData::IntegralType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 inline __Detail::JsonData MakeBoolean(const __Detail::JsonData::BooleanType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 __CAITLYN_JSON_NAMESPACE_END
-- 
2.43.0


From e91c4b5919df009aa252b98c4ce235b91fd7cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 40/68] fix: special characters in JSON strings and keys are
 escaped when written

---
 .../__Serializing/Json/Types/JsonData.h       | 41 ++++++++++++++++++-
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index f5ec594..1d02ffa 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -392,7 +392,8 @@ private:
                         {
                             oss << indent_str;
                         }
-                        oss << Def::QuotationMark << member.first << Def::QuotationMark << Def::Colon;
+                        MakeStringOutput(oss, member.first);
+                        oss << Def::Colon;
                         if (mangling)
                         {
                             oss << Def::Space;
@@ -453,7 +454,7 @@ private:
                 break;
             }
             case JsonClass::String:
-                oss << Def::QuotationMark << data_.string_value << Def::QuotationMark;
+                MakeStringOutput(oss, data_.string_value);
                 break;
             case JsonClass::Floating:
                 oss << data_.floating_value;
@@ -472,6 +473,42 @@ private:
         }
     }
 
+    static void MakeStringOutput(std::ostringstream& oss, const StringType& value)
+    {
+        oss << Def::QuotationMark;
+        for (const auto& character : value)
+        {
+            switch (character.GetCodePoint())
+            {
+                case '"':
+                    oss << "\\\"";
+                    break;
+                case '\\':
+                    oss << "\\\\";
+                    break;
+                case '\b':
+                    oss << "\\b";
+                    break;
+                case '\f':
+                    oss << "\\f";
+                    break;
+                case '\n':
+                    oss << "\\n";
+                    break;
+                case '\r':
+                    oss << "\\r";
+                    break;
+                case '\t':
+                    oss << "\\t";
+                    break;
+                default:
+                    oss << character;
+                    break;
+            }
+        }
+        oss << Def::QuotationMark;
+    }
+
     void CopyUnion(const JsonData& other)
     {
         switch (other.type_)
-- 
2.43.0


From 15cc065e545b103712ce2676efb9936a7f5490e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 41/68] fix: a JSON floating value is written so that it reads
 back as the same floating value

---
 .../__Serializing/Json/Types/JsonData.h       | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 1d02ffa..6bd3294 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -19,7 +19,9 @@
 #define CAITLYN_SERIALIZING_JSON_TYPES_DATA_H_
 
 #include <algorithm>
+#include <cstdlib>
 #include <deque>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -457,7 +459,7 @@ private:
                 MakeStringOutput(oss, data_.string_value);
                 break;
             case JsonClass::Floating:
-                oss << data_.floating_value;
+                MakeFloatingOutput(oss, data_.floating_value);
                 break;
             case JsonClass::Integral:
                 oss << data_.integral_value;
@@ -509,6 +511,30 @@ private:
         oss << Def::QuotationMark;
     }
 
+    static void MakeFloatingOutput(std::ostringstream& oss, const FloatingType value)
+    {
+        std::string text;
+        for (int precision = std::numeric_limits<FloatingType>::digits10;
+             precision <= std::numeric_limits<FloatingType>::max_digits10;
+             ++precision)
+        {
+            std::ostringstream number;
+            number.precision(precision);
+            number << value;
+            text = number.str();
+
+            if (std::strtof(text.c_str(), nullptr) == value)
+            {
+                break;
+            }
+        }
+        if (text.find_first_of(".e") == std::string::npos)
+        {
+            text += ".0";
+        }
+        oss << text;
+    }
+
     void CopyUnion(const JsonData& other)
     {
         switch (other.type_)
-- 
2.43.0


From 7c741046f64d1c8b17e88d98b14eb908a06d6a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 42/68] fix: removing a JSON member releases it

---
 include/Caitlyn/__Serializing/Json/Types/Json.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/Json.h b/include/Caitlyn/__Serializing/Json/Types/Json.h
index f4cff9a..1c383b7 100644
--- a/include/Caitlyn/__Serializing/Json/Types/Json.h
+++ b/include/Caitlyn/__Serializing/Json/Types/Json.h
@@ -136,6 +136,13 @@ public:
         if (root_.HasMember(key))
         {
             auto& obj = root_.GetData();
+            for (const auto& member : obj)
+            {
+                if (member.first == key)
+                {
+                    delete member.second;
+                }
+            }
             obj.erase(
                 std::remove_if(
                     obj.begin(),
-- 
2.43.0


From 0805b8eb6c78ea9988e893b31bea7062e6b91211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:35 +0000
Subject: [PATCH 43/68] fix: UnwrapOrDefault can be called

---
 include/Caitlyn/__Core/Error/Expected.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index a37d5cd..bc4658f 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -219,13 +219,13 @@ public:
 
     const ValueType& UnwrapOrDefault() const
     {
-        static ValueType default_value{};
-        return unwrap_or(default_value);
+        static const ValueType default_value{};
+        return UnwrapOrDefault(default_value);
     }
 
     const ValueType& UnwrapOrDefault(const ValueType& default_value) const
     {
-        return unwrap_or(default_value);
+        return hasValue_ ? data_.value : default_value;
     }
 
     const ValueType& Expect(const String& message) const
-- 
2.43.0


From 72d9cf264bfd4f4cccae909ef6ebb3a94068fd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:35 +0000
Subject: [PATCH 44/68] fix: Filter can be called, and passes an error through

---
 include/Caitlyn/__Core/Error/Expected.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index bc4658f..1de821a 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -250,11 +250,11 @@ public:
     template <typename Func>
     auto Filter(Func func) const -> Expected
     {
-        if (hasValue_ && func(data_.value))
+        if (!hasValue_ || func(data_.value))
         {
             return *this;
         }
-        return result_t(Unexpected<ErrorType>{});
+        return Expected{Unexpected<ErrorType>{ErrorType{}}};
     }
 
     template <typename U, typename Func>
-- 
2.43.0


From e49018fad36d0ac508f737eeccc630e5778bfad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:35 +0000
Subject: [PATCH 45/68] fix: mapping an error to another type passes a value
 through

---
 include/Caitlyn/__Core/Error/Expected.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index 1de821a..0c1dd31 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -174,7 +174,7 @@ public:
         {
             return Expected<ValueType, result_error_type>(Unexpected<result_error_type>(func(data_.error.Get())));
         }
-        return *this;
+        return Expected<ValueType, result_error_type>(data_.value);
     }
 
     template <typename Func>
-- 
2.43.0


From df1755733015fa1029d7399d6f860bc5c3e93119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:35 +0000
Subject: [PATCH 46/68] fix: a copy assignment of an expected value that throws
 leaves the target alone

---
 include/Caitlyn/__Core/Error/Expected.h | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index 0c1dd31..11c01dc 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -71,16 +71,8 @@ public:
     {
         if (this != &other)
         {
-            DestroyUnion();
-            hasValue_ = other.hasValue_;
-            if (hasValue_)
-            {
-                new (&data_.value) ValueType{other.data_.value};
-            }
-            else
-            {
-                new (&data_.error) Unexpected<ErrorType>{other.data_.error};
-            }
+            Expected copy{other};
+            *this = std::move(copy);
         }
         return *this;
     }
-- 
2.43.0


From 80145ddde797761d211b85382df21d637ab7d6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:06 +0000
Subject: [PATCH 47/68] fix: the last shared pointer never freed its object

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index e7160ec..024e47e 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -152,7 +152,7 @@ public:
 private:
     void Release() const
     {
-        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_relaxed) == 0)
+        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_acq_rel) == 1)
         {
             delete data_;
             delete ref_count_;
-- 
2.43.0


From 2fb3136bf1ed7dc24e05aef44ae9e61ccd7bbe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:06 +0000
Subject: [PATCH 48/68] fix: copying an empty shared pointer dereferenced a
 null counter

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index 024e47e..dcf0363 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -43,7 +43,10 @@ public:
 
     SharedPtr(const SharedPtr& other) : data_{other.data_}, ref_count_{other.ref_count_}
     {
-        ref_count_->fetch_add(1, std::memory_order_relaxed);
+        if (ref_count_)
+        {
+            ref_count_->fetch_add(1, std::memory_order_relaxed);
+        }
     }
 
     SharedPtr(SharedPtr&& other) noexcept : data_{other.data_}, ref_count_{other.ref_count_}
-- 
2.43.0


From 2b5c5781e11666b3139f3fabd39b44d4ce0ce8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:06 +0000
Subject: [PATCH 49/68] fix: assigning a raw pointer to a shared pointer did
 not compile

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index dcf0363..e532c95 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -63,7 +63,7 @@ public:
 public:
     SharedPtr& operator=(Pointer data)
     {
-        reset(data);
+        Reset(data);
         return *this;
     }
 
-- 
2.43.0


From a054d226273068a929b17562ba7a4e40fa41106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:06 +0000
Subject: [PATCH 50/68] fix: assigning a shared pointer held inside its own
 object read freed memory

---
 .../__Core/Memory/Types/SharedPointer.h       | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index e532c95..b1c94a0 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -20,6 +20,7 @@
 
 #include <atomic>
 #include <stdexcept>
+#include <utility>
 
 #include "Caitlyn/__Base.h"
 
@@ -71,13 +72,8 @@ public:
     {
         if (this != &other)
         {
-            Release();
-            data_ = other.data_;
-            ref_count_ = other.ref_count_;
-            if (ref_count_)
-            {
-                ref_count_->fetch_add(1);
-            }
+            SharedPtr copy{other};
+            Swap(copy);
         }
         return *this;
     }
@@ -86,11 +82,8 @@ public:
     {
         if (this != &other)
         {
-            Release();
-            data_ = other.data_;
-            ref_count_ = other.ref_count_;
-            other.data_ = nullptr;
-            other.ref_count_ = nullptr;
+            SharedPtr taken{std::move(other)};
+            Swap(taken);
         }
         return *this;
     }
@@ -153,6 +146,12 @@ public:
     }
 
 private:
+    void Swap(SharedPtr& other) noexcept
+    {
+        std::swap(data_, other.data_);
+        std::swap(ref_count_, other.ref_count_);
+    }
+
     void Release() const
     {
         if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_acq_rel) == 1)
-- 
2.43.0


From 2d2e554fd500a4873df9906533b27b92d49e9992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:06 +0000
Subject: [PATCH 51/68] fix: assigning a raw pointer to a unique pointer did
 not compile

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index ba2d065..cf049fb 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -53,7 +53,7 @@ public:
 public:
     UniquePtr& operator=(Pointer data)
     {
-        reset(data);
+        Reset(data);
         return *this;
     }
 
-- 
2.43.0


From 675633b66a7401b97a619465e695557b6a1fd4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:06 +0000
Subject: [PATCH 52/68] fix: releasing a unique pointer did not compile

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index cf049fb..f45b283 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -126,7 +126,7 @@ public:
 
     Pointer Release()
     {
-        ConstPointer tmp = data_;
+        Pointer tmp = data_;
         data_ = nullptr;
         return tmp;
     }
-- 
2.43.0


From a512c0e5e2ed5b5cd861ad906b46a11dd1c393d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:06 +0000
Subject: [PATCH 53/68] fix: move-assigning a unique pointer held inside its
 own object read freed memory

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index f45b283..f2d14ff 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -61,9 +61,10 @@ public:
     {
         if (this != &other)
         {
-            delete data_;
+            Pointer old = data_;
             data_ = other.data_;
             other.data_ = nullptr;
+            delete old;
         }
         return *this;
     }
-- 
2.43.0


From 392bec23ec85265b28896017e420b85f1ce0c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:06 +0000
Subject: [PATCH 54/68] fix: resetting a raw pointer wrapper to its own pointer
 left it dangling

---
 include/Caitlyn/__Core/Memory/Types/RawPointer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/RawPointer.h b/include/Caitlyn/__Core/Memory/Types/RawPointer.h
index a79d64d..ef17765 100644
--- a/include/Caitlyn/__Core/Memory/Types/RawPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/RawPointer.h
@@ -105,8 +105,11 @@ public:
 public:
     void Reset(Pointer new_data = nullptr)
     {
-        delete data_;
-        data_ = new_data;
+        if (data_ != new_data)
+        {
+            delete data_;
+            data_ = new_data;
+        }
     }
 
     void Destroy()
-- 
2.43.0


From e6636acd555232d143ae248c7343b53042b3d963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:48 +0000
Subject: [PATCH 55/68] fix: weak pointers kept their object alive and never
 expired

---
 .../__Core/Memory/Types/SharedPointer.h       | 31 ++++++--
 .../Caitlyn/__Core/Memory/Types/WeakPointer.h | 74 ++++++++++++++-----
 2 files changed, 80 insertions(+), 25 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index b1c94a0..4b21055 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -26,19 +26,30 @@
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
+template <typename T>
+class WeakPtr;
+
 template <typename T>
 class SharedPtr
 {
+    friend class WeakPtr<T>;
+
 public:
     using ValueType = T;
     using Pointer = T*;
     using Reference = T&;
     using Counter = std::atomic_size_t;
 
+    struct ControlBlock
+    {
+        Counter owners{1};
+        Counter observers{1}; // weak pointers, plus one for all the owners together
+    };
+
 public:
     SharedPtr() = default;
 
-    SharedPtr(Pointer data) : data_{data}, ref_count_{data ? new Counter(1) : nullptr}
+    SharedPtr(Pointer data) : data_{data}, ref_count_{data ? new ControlBlock : nullptr}
     {
     }
 
@@ -46,7 +57,7 @@ public:
     {
         if (ref_count_)
         {
-            ref_count_->fetch_add(1, std::memory_order_relaxed);
+            ref_count_->owners.fetch_add(1, std::memory_order_relaxed);
         }
     }
 
@@ -141,7 +152,7 @@ public:
         {
             Release();
             data_ = data;
-            ref_count_ = data ? new Counter(1) : nullptr;
+            ref_count_ = data ? new ControlBlock : nullptr;
         }
     }
 
@@ -154,16 +165,24 @@ private:
 
     void Release() const
     {
-        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_acq_rel) == 1)
+        if (ref_count_ && ref_count_->owners.fetch_sub(1, std::memory_order_acq_rel) == 1)
         {
             delete data_;
-            delete ref_count_;
+            ReleaseControlBlock(ref_count_);
+        }
+    }
+
+    static void ReleaseControlBlock(ControlBlock* block)
+    {
+        if (block && block->observers.fetch_sub(1, std::memory_order_acq_rel) == 1)
+        {
+            delete block;
         }
     }
 
 private:
     Pointer data_{};
-    Counter* ref_count_{};
+    ControlBlock* ref_count_{};
 };
 
 __CAITLYN_GLOBAL_NAMESPACE_END
diff --git a/include/Caitlyn/__Core/Memory/Types/WeakPointer.h b/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
index ba06cc9..457137e 100644
--- a/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
@@ -32,45 +32,55 @@ public:
     using Resource = SharedPtr<T>;
 
 public:
-    WeakPtr() : data_(nullptr)
+    WeakPtr() = default;
+
+    WeakPtr(const Resource& resource) : data_{resource.data_}, block_{resource.ref_count_}
     {
+        Observe();
     }
 
-    WeakPtr(const Resource& resource) : data_{resource}
+    WeakPtr(const WeakPtr& other) : data_{other.data_}, block_{other.block_}
     {
+        Observe();
     }
 
-    WeakPtr(const WeakPtr& other) : data_{other.data_}
+    WeakPtr(WeakPtr&& other) noexcept : data_{other.data_}, block_{other.block_}
     {
+        other.data_ = nullptr;
+        other.block_ = nullptr;
     }
 
-    WeakPtr(WeakPtr&& other) noexcept : data_{std::move(other.data_)}
+    ~WeakPtr()
     {
+        Resource::ReleaseControlBlock(block_);
     }
 
 public:
     WeakPtr& operator=(const WeakPtr& other)
     {
-        data_ = other.data_;
+        WeakPtr copy{other};
+        Swap(copy);
         return *this;
     }
 
     WeakPtr& operator=(const Resource& sp)
     {
-        this->data_ = sp;
+        WeakPtr copy{sp};
+        Swap(copy);
         return *this;
     }
 
     WeakPtr& operator=(WeakPtr&& other) noexcept
     {
-        data_ = std::move(other.data_);
+        WeakPtr taken{std::move(other)};
+        Swap(taken);
         return *this;
     }
 
 public:
     Reference operator*() const
     {
-        if (data_ == nullptr || !data_.Get())
+        if (expired())
         {
             throw std::runtime_error{"Dereferencing null or expired weak pointer."};
         }
@@ -79,52 +89,78 @@ public:
 
     Pointer operator->() const
     {
-        if (data_ == nullptr || !data_.Get())
+        if (expired())
         {
             throw std::runtime_error{"Dereferencing null or expired weak pointer."};
         }
-        return data_.Get();
+        return data_;
     }
 
 public:
     bool operator==(const WeakPtr& other) const
     {
-        return data_ == other.data_;
+        return block_ == other.block_;
     }
 
     bool operator!=(const WeakPtr& other) const
     {
-        return data_ != other.data_;
+        return block_ != other.block_;
     }
 
     bool operator==(NullPtr) const
     {
-        return data_ == nullptr;
+        return expired();
     }
 
     bool operator!=(NullPtr) const
     {
-        return data_ != nullptr;
+        return !expired();
     }
 
 public:
     Resource lock() const
     {
-        if (data_ == nullptr || !data_.Get())
+        Resource owner;
+        if (block_)
         {
-            return Resource();
+            std::size_t owners = block_->owners.load(std::memory_order_relaxed);
+            while (owners != 0 &&
+                   !block_->owners.compare_exchange_weak(owners, owners + 1, std::memory_order_acq_rel, std::memory_order_relaxed))
+            {
+            }
+            if (owners != 0)
+            {
+                owner.data_ = data_;
+                owner.ref_count_ = block_;
+            }
         }
-        return data_;
+        return owner;
     }
 
 public:
     bool expired() const
     {
-        return data_ == nullptr || !data_.Get();
+        return block_ == nullptr || block_->owners.load(std::memory_order_acquire) == 0;
+    }
+
+private:
+    void Observe() const
+    {
+        if (block_)
+        {
+            block_->observers.fetch_add(1, std::memory_order_relaxed);
+        }
+    }
+
+    void Swap(WeakPtr& other) noexcept
+    {
+        std::swap(data_, other.data_);
+        std::swap(block_, other.block_);
     }
 
 private:
-    Resource data_;
+    Pointer data_{};
+    typename Resource::ControlBlock* block_{};
 };
 
 __CAITLYN_GLOBAL_NAMESPACE_END
-- 
2.43.0


From 4c045b443f4766610232760511ac794d7d1a62fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:43 +0000
Subject: [PATCH 56/68] fix: the derived integer comparisons called functions
 that do not exist

---
 include/Caitlyn/__Core/Utility/Comparators.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/Utility/Comparators.h b/include/Caitlyn/__Core/Utility/Comparators.h
index 4fbff51..8b70d75 100644
--- a/include/Caitlyn/__Core/Utility/Comparators.h
+++ b/include/Caitlyn/__Core/Utility/Comparators.h
@@ -42,7 +42,7 @@ bool cmp_eq(T t, U u) noexcept
 template <typename T, typename U>
 constexpr bool cmp_ne(T t, U u) noexcept
 {
-    return !compare_equal(t, u);
+    return !cmp_eq(t, u);
 }
 
 template <typename T, typename U>
@@ -65,19 +65,19 @@ bool cmp_less(T t, U u) noexcept
 template <typename T, typename U>
 constexpr bool cmp_greater(T t, U u) noexcept
 {
-    return compare_less(u, t);
+    return cmp_less(u, t);
 }
 
 template <typename T, typename U>
 constexpr bool cmp_le(T t, U u) noexcept
 {
-    return !compare_greater(t, u);
+    return !cmp_greater(t, u);
 }
 
 template <typename T, typename U>
 constexpr bool cmp_ge(T t, U u) noexcept
 {
-    return !compare_less(t, u);
+    return !cmp_less(t, u);
 }
 
 __CAITLYN_GLOBAL_NAMESPACE_END
-- 
2.43.0


From bb5b4c37176a1281299b95e5d1f58f31e630b1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:43 +0000
Subject: [PATCH 57/68] fix: a not-a-number percentage was accepted

---
 include/Caitlyn/__Core/Utility/Random.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Utility/Random.h b/include/Caitlyn/__Core/Utility/Random.h
index 32004fa..5ad8ac0 100644
--- a/include/Caitlyn/__Core/Utility/Random.h
+++ b/include/Caitlyn/__Core/Utility/Random.h
@@ -95,7 +95,7 @@ inline Decimal Random(const Decimal min, const Decimal max)
 
 inline Bool RandomBoolean(const Double percentage = 0.5)
 {
-    if (percentage < 0.0 || percentage > 1.0)
+    if (!(percentage >= 0.0 && percentage <= 1.0))
     {
         throw std::invalid_argument{"True percentage is only 0.0..1.0"};
     }
-- 
2.43.0


From 129580694c363f5af4c207d6369c2946b9af5620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:43 +0000
Subject: [PATCH 58/68] fix: a failed string assertion ended the whole test run

---
 include/Caitlyn/__Testing/Macro/Assert.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index a386cd8..30472b3 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -99,19 +99,21 @@
         }                                                                                                              \
         else if ((expected) == nullptr)                                                                                \
         {                                                                                                              \
-            std::cerr << "Assertion failed: Expected nullptr, but got \"" << (actual) << "\"" << std::endl;            \
-            std::abort();                                                                                              \
+            std::ostringstream oss;                                                                                    \
+            oss << "Assertion failed: Expected nullptr, but got \"" << (actual) << "\"";                               \
+            throw std::runtime_error(oss.str());                                                                       \
         }                                                                                                              \
         else if ((actual) == nullptr)                                                                                  \
         {                                                                                                              \
-            std::cerr << "Assertion failed: Expected \"" << (expected) << "\", but got nullptr" << std::endl;          \
-            std::abort();                                                                                              \
+            std::ostringstream oss;                                                                                    \
+            oss << "Assertion failed: Expected \"" << (expected) << "\", but got nullptr";                             \
+            throw std::runtime_error(oss.str());                                                                       \
         }                                                                                                              \
         else if (std::strcmp((expected), (actual)) != 0)                                                               \
         {                                                                                                              \
-            std::cerr << "Assertion failed: Expected \"" << (expected) << "\", but got \"" << (actual) << "\""         \
-                      << std::endl;                                                                                    \
-            std::abort();                                                                                              \
+            std::ostringstream oss;                                                                                    \
+            oss << "Assertion failed: Expected \"" << (expected) << "\", but got \"" << (actual) << "\"";              \
+            throw std::runtime_error(oss.str());                                                                       \
         }                                                                                                              \
     }                                                                                                                  \
     while (false)
-- 
2.43.0


From 77f6bbfe25802f776b39fa61f901570474ed7646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:43 +0000
Subject: [PATCH 59/68] fix: reading a whole file read past the buffer and
 could not read an empty file

---
 include/Caitlyn/__Core/File/File.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 21c18a9..927f0b9 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -125,10 +125,10 @@ public:
         const std::streamsize size = file_.tellg();
         file_.seekg(0, std::ios::beg);
 
-        std::vector<char> buffer(size);
-        if (file_.read(buffer.data(), size))
+        std::basic_string<char> buffer(size, '\0');
+        if (size == 0 || file_.read(&buffer[0], size))
         {
-            return buffer.data();
+            return buffer;
         }
         return {};
     }
-- 
2.43.0


From 71fa22e83195e0cde88f1267aa97654e40066e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:43 +0000
Subject: [PATCH 60/68] fix: after the last line was read the position was
 lost, whole reads failed and writes were dropped

---
 include/Caitlyn/__Core/File/File.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 927f0b9..1b8235e 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -65,6 +65,7 @@ public:
         {
             throw std::ios_base::failure{"Failed to open file for writing."};
         }
+        eof_ = false;
     }
 
     void Close()
@@ -89,12 +90,12 @@ public:
 
     bool IsEof() const
     {
-        return file_.eof();
+        return eof_;
     }
 
     explicit operator bool() const noexcept
     {
-        return !file_.eof();
+        return !eof_;
     }
 
     void SetPosition(const std::streampos& position)
@@ -106,6 +107,7 @@ public:
         {
             throw std::ios_base::failure{"Failed to set position in the file."};
         }
+        eof_ = false;
     }
 
     std::streampos GetPosition() const
@@ -139,7 +141,7 @@ public:
         {
             Open();
         }
-        if (file_.eof())
+        if (eof_)
         {
             return {};
         }
@@ -163,7 +165,10 @@ public:
         }
         if (file_.eof())
         {
+            file_.clear();
+            file_.seekg(0, std::ios::end);
             currentPosition_ = file_.tellg();
+            eof_ = true;
             return result.str();
         }
         if (file_.fail() || file_.bad())
@@ -451,6 +456,7 @@ private:
     String filename_;
     std::basic_fstream<char> file_;
     std::streampos currentPosition_{};
+    Bool eof_{};
 };
 
 inline File MakeFile(const String& filename)
-- 
2.43.0


From 30c3918c394f8d8a5a2702500d7a96b10f59c4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:43 +0000
Subject: [PATCH 61/68] fix: a position that cannot be set was kept and left
 the file unusable

---
 include/Caitlyn/__Core/File/File.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 1b8235e..213371e 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -100,13 +100,14 @@ public:
 
     void SetPosition(const std::streampos& position)
     {
-        currentPosition_ = position;
         file_.clear();
-        file_.seekg(currentPosition_, std::ios::beg);
+        file_.seekg(position, std::ios::beg);
         if (file_.fail())
         {
+            file_.clear();
             throw std::ios_base::failure{"Failed to set position in the file."};
         }
+        currentPosition_ = position;
         eof_ = false;
     }
 
-- 
2.43.0


From 67b67dfa851bc82eb36a117c1ff467349d864dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:43 +0000
Subject: [PATCH 62/68] fix: erasing a file kept the reading position

---
 include/Caitlyn/__Core/File/File.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 213371e..50f830a 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -85,6 +85,7 @@ public:
             throw std::ios_base::failure{"Failed to open file for clearing."};
         }
         clearFile.close();
+        currentPosition_ = 0;
         Open();
     }
 
-- 
2.43.0


From 19df5cdc793463a49f07a354de78ba18c7a168a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:43 +0000
Subject: [PATCH 63/68] fix: reading a character from an empty line read past
 the end

---
 include/Caitlyn/__Core/IO/Stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/IO/Stream.h b/include/Caitlyn/__Core/IO/Stream.h
index 7db32f4..be90dca 100644
--- a/include/Caitlyn/__Core/IO/Stream.h
+++ b/include/Caitlyn/__Core/IO/Stream.h
@@ -49,7 +49,8 @@ public:
 
     static Char ReadChar(const String& message = String::Empty())
     {
-        return ReadLine(message)[0];
+        const String line = ReadLine(message);
+        return line.NotEmpty() ? line[0] : Char{};
     }
 
     template <typename... Args>
-- 
2.43.0


From 33714ea438544cef996400844e6be71dfc61376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:37 +0000
Subject: [PATCH 64/68] fix: decimal numbers keep leading zeros of the
 fraction, their sign and carries (the product in docs/usage/numeric.md lost a
 digit)

---
 include/Caitlyn/__Numeric/Types/BigFloat.h | 221 ++++++---------------
 1 file changed, 64 insertions(+), 157 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigFloat.h b/include/Caitlyn/__Numeric/Types/BigFloat.h
index 0d9027a..68fff18 100644
--- a/include/Caitlyn/__Numeric/Types/BigFloat.h
+++ b/include/Caitlyn/__Numeric/Types/BigFloat.h
@@ -44,37 +44,35 @@ public:
         {
             throw std::invalid_argument{"Invalid number format"};
         }
-        size_t point_pos = number.Find(Def::FullStop);
+        const size_t point_pos = number.Find(Def::FullStop);
         if (point_pos == String::NPosition)
         {
-            integerPart_ = BigInteger{number};
+            unscaled_ = BigInteger{number};
         }
         else
         {
             String integer_str = number.Substring(0, point_pos);
             String fractional_str = number.Substring(point_pos + 1);
 
-            if (integer_str.IsEmpty())
-            {
-                integer_str = Def::DigitZero;
-            }
             if (fractional_str.IsEmpty())
             {
                 fractional_str = Def::DigitZero;
             }
-            integerPart_ = BigInteger{integer_str};
-            fractionalPart_ = BigInteger{fractional_str};
+            if (integer_str.IsEmpty())
+            {
+                integer_str = Def::DigitZero;
+            }
+            scale_ = fractional_str.size();
+            unscaled_ = BigInteger{integer_str + fractional_str};
         }
     }
 
     BigFloat(const BigFloat& other) = default;
 
     BigFloat(BigFloat&& other) noexcept
-        : integerPart_(std::move(other.integerPart_)),
-          fractionalPart_(std::move(other.fractionalPart_)),
-          isNegative_(other.isNegative_)
+        : unscaled_(std::move(other.unscaled_)), scale_(other.scale_)
     {
-        other.isNegative_ = false;
+        other.scale_ = 0;
     }
 
 public:
@@ -82,9 +80,8 @@ public:
     {
         if (this != &other)
         {
-            integerPart_ = other.integerPart_;
-            fractionalPart_ = other.fractionalPart_;
-            isNegative_ = other.isNegative_;
+            unscaled_ = other.unscaled_;
+            scale_ = other.scale_;
         }
         return *this;
     }
@@ -93,10 +90,9 @@ public:
     {
         if (this != &other)
         {
-            integerPart_ = std::move(other.integerPart_);
-            fractionalPart_ = std::move(other.fractionalPart_);
-            isNegative_ = other.isNegative_;
-            other.isNegative_ = false;
+            unscaled_ = std::move(other.unscaled_);
+            scale_ = other.scale_;
+            other.scale_ = 0;
         }
         return *this;
     }
@@ -104,139 +100,37 @@ public:
 public:
     BigFloat Add(const BigFloat& other) const
     {
-        BigInteger this_fractional = fractionalPart_;
-        BigInteger other_fractional = other.fractionalPart_;
-
-        // Normalize fractional part lengths by adding leading zeros
-        while (this_fractional.Size() < other_fractional.Size())
-        {
-            this_fractional = this_fractional.Multiply(BigInteger{"10"});
-        }
-        while (other_fractional.Size() < this_fractional.Size())
-        {
-            other_fractional = other_fractional.Multiply(BigInteger{"10"});
-        }
-        BigInteger fractional_result = this_fractional.Add(other_fractional);
-        bool carry = false;
-
-        // If the result of fractional addition exceeds the fractional limit, carry
-        // over to integer part
-        if (fractional_result.Size() > this_fractional.Size())
-        {
-            carry = true;
-            fractional_result = fractional_result.Subtract(BigInteger{"10"}.Multiply(this_fractional.Size()));
-        }
-        BigInteger integer_result = integerPart_.Add(other.integerPart_);
-        if (carry)
-        {
-            integer_result = integer_result.Add(BigInteger{Def::DigitOne});
-        }
-        return BigFloat{integer_result.ToString() + Def::FullStop + fractional_result.ToString()};
+        const SizeType scale = std::max(scale_, other.scale_);
+        return BigFloat{Unscaled(scale).Add(other.Unscaled(scale)), scale};
     }
 
     BigFloat Subtract(const BigFloat& other) const
     {
-        BigInteger this_fractional = fractionalPart_;
-        BigInteger other_fractional = other.fractionalPart_;
-
-        // Normalize fractional part lengths by adding leading zeros
-        while (this_fractional.Size() < other_fractional.Size())
-        {
-            this_fractional = this_fractional.Multiply(BigInteger{"10"});
-        }
-        while (other_fractional.Size() < this_fractional.Size())
-        {
-            other_fractional = other_fractional.Multiply(BigInteger{"10"});
-        }
-
-        bool borrow = false;
-        if (this_fractional.LessThan(other_fractional))
-        {
-            borrow = true;
-            this_fractional = this_fractional.Add(BigInteger{"10"}.Multiply(this_fractional.Size()));
-        }
-        const BigInteger fractional_result = this_fractional.Subtract(other_fractional);
-
-        BigInteger integer_result = integerPart_.Subtract(other.integerPart_);
-        if (borrow)
-        {
-            integer_result = integer_result.Subtract(BigInteger{"1"});
-        }
-        return BigFloat{integer_result.ToString() + "." + fractional_result.ToString()};
+        const SizeType scale = std::max(scale_, other.scale_);
+        return BigFloat{Unscaled(scale).Subtract(other.Unscaled(scale)), scale};
     }
 
     BigFloat Multiply(const BigFloat& other) const
     {
-        // Convert both numbers to their full string representation without the
-        // decimal point
-        const String this_full = integerPart_.ToString() + fractionalPart_.ToString();
-        const String other_full = other.integerPart_.ToString() + other.fractionalPart_.ToString();
-
-        // Count the number of digits after the decimal point in both numbers
-        const size_t this_frac_size = fractionalPart_.Size();
-        const size_t other_frac_size = other.fractionalPart_.Size();
-
-        // Perform the multiplication on the full strings
-        const BigInteger result_full = BigInteger{this_full}.Multiply(BigInteger{other_full});
-
-        // The total number of fractional digits in the result
-        const size_t total_frac_size = this_frac_size + other_frac_size;
-
-        // Convert the result back to a string
-        String result_str = result_full.ToString();
-
-        // Insert the decimal point at the correct position
-        if (total_frac_size >= result_str.size())
-        {
-            result_str.Insert(0, String(total_frac_size - result_str.size() + 1, '0'));
-        }
-        result_str.Insert(result_str.size() - total_frac_size, 1, '.');
-
-        // Construct and return the BigFloat result
-        return BigFloat{result_str};
+        return BigFloat{unscaled_.Multiply(other.unscaled_), scale_ + other.scale_};
     }
 
+    // The quotient is truncated to the number of fractional digits of the more precise operand
     BigFloat Divide(const BigFloat& other) const
     {
         if (other.Equal(BigFloat{"0"}))
         {
             throw std::invalid_argument{"Division by zero"};
         }
-        // Convert both numbers to their full string representation without the
-        // decimal point
-        const String this_full = integerPart_.ToString() + fractionalPart_.ToString();
-
-        const String other_full = other.integerPart_.ToString() + other.fractionalPart_.ToString();
-
-        // Count the number of digits after the decimal point in both numbers
-        const size_t this_frac_size = fractionalPart_.Size();
-        const size_t other_frac_size = other.fractionalPart_.Size();
-
-        // Perform the division on the full strings
-        const BigInteger result_full = BigInteger{this_full}.Divide(BigInteger{other_full});
-
-        // The total number of fractional digits in the result
-        const size_t total_frac_size = this_frac_size - other_frac_size;
-
-        // Convert the result back to a string
-        String result_str = result_full.ToString();
-
-        // Insert the decimal point at the correct position
-        if (total_frac_size >= result_str.size())
-        {
-            result_str.Insert(0, String(total_frac_size - result_str.size() + 1, '0'));
-        }
-        result_str.Insert(result_str.size() - total_frac_size, 1, '.');
-
-        // Construct and return the BigFloat result
-        return BigFloat{result_str};
+        const SizeType scale = std::max(scale_, other.scale_);
+        return BigFloat{Unscaled(scale + other.scale_).Divide(other.unscaled_), scale};
     }
 
 public:
     BigFloat Abs() const
     {
         BigFloat result = *this;
-        result.isNegative_ = false;
+        result.unscaled_ = result.unscaled_.Abs();
         return result;
     }
 
@@ -268,7 +162,7 @@ public:
 
     BigFloat Sqrt() const
     {
-        if (isNegative_)
+        if (LessThan(BigFloat{"0"}))
         {
             throw std::invalid_argument{"Square root of negative number"};
         }
@@ -303,30 +197,19 @@ public:
 public:
     SizeType Size() const
     {
-        return integerPart_.Size() + fractionalPart_.Size();
+        return std::max(unscaled_.Size(), scale_);
     }
 
     bool Equal(const BigFloat& other) const
     {
-        return integerPart_.Equal(other.integerPart_) && fractionalPart_.Equal(other.fractionalPart_) &&
-               isNegative_ == other.isNegative_;
+        const SizeType scale = std::max(scale_, other.scale_);
+        return Unscaled(scale).Equal(other.Unscaled(scale));
     }
 
     bool LessThan(const BigFloat& other) const
     {
-        if (isNegative_ != other.isNegative_)
-        {
-            return isNegative_;
-        }
-        if (integerPart_.LessThan(other.integerPart_))
-        {
-            return true;
-        }
-        if (integerPart_.GreaterThan(other.integerPart_))
-        {
-            return false;
-        }
-        return fractionalPart_.LessThan(other.fractionalPart_);
+        const SizeType scale = std::max(scale_, other.scale_);
+        return Unscaled(scale).LessThan(other.Unscaled(scale));
     }
 
     bool GreaterThan(const BigFloat& other) const
@@ -336,26 +219,50 @@ public:
 
     String ToString() const
     {
-        String result = integerPart_.ToString();
-        if (!fractionalPart_.ToString().IsEmpty() && fractionalPart_.ToString() != "0")
+        const bool is_negative = unscaled_.LessThan(BigInteger{"0"});
+        String digits = unscaled_.Abs().ToString();
+        if (digits.size() <= scale_)
         {
-            result.PushBack('.');
-            result += fractionalPart_.ToString();
+            digits.Insert(0, scale_ - digits.size() + 1, '0');
+        }
+        const String fraction = digits.Substring(digits.size() - scale_);
+        String result;
+        if (is_negative)
+        {
+            result.PushBack('-');
+        }
+        result += digits.Substring(0, digits.size() - scale_);
+        for (const auto& digit : fraction)
+        {
+            if (digit != '0')
+            {
+                result.PushBack('.');
+                result += fraction;
+                break;
+            }
         }
         return result;
     }
 
 private:
-    void RemoveLeadingZeros()
+    BigFloat(const BigInteger& unscaled, SizeType scale) : unscaled_(unscaled), scale_(scale)
     {
-        integerPart_.RemoveLeadingZeros();
-        fractionalPart_.RemoveLeadingZeros();
+    }
+
+    // The value as a number of units of the given fractional digit, not before the own last one
+    BigInteger Unscaled(SizeType scale) const
+    {
+        if (scale == scale_)
+        {
+            return unscaled_;
+        }
+        return BigInteger{unscaled_.ToString() + String(scale - scale_, '0')};
     }
 
 private:
-    BigInteger integerPart_;
-    BigInteger fractionalPart_;
-    SignFlag isNegative_ = false;
+    // The value is unscaled_ / 10^scale_
+    BigInteger unscaled_;
+    SizeType scale_ = 0;
 };
 
 __CAITLYN_GLOBAL_NAMESPACE_END
-- 
2.43.0


From 74cf46c95a8f5be3808ddb810bb5c81ce780303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:10 +0000
Subject: [PATCH 65/68] fix: deeply nested JSON overran the stack

---
 .../__Serializing/Json/Types/JsonParser.h     | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 80f9c64..11df728 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -88,7 +88,7 @@ public:
     }
 
 private:
-    JsonParser(const String& json) : error_{JsonError::NoError}, json_{json}, position_{}
+    JsonParser(const String& json) : error_{JsonError::NoError}, json_{json}, position_{}, depth_{}
     {
     }
 
@@ -106,13 +106,19 @@ private:
         {
             return ParseString();
         }
-        if (current_char == Def::LeftCurlyBracket)
+        if (current_char == Def::LeftCurlyBracket || current_char == Def::LeftSquareBracket)
         {
-            return ParseObject();
-        }
-        if (current_char == Def::LeftSquareBracket)
-        {
-            return ParseArray();
+            // Every level of nesting takes a part of the stack
+            if (depth_ >= 512)
+            {
+                SetError(JsonError::InvalidJson);
+                SetErrorPosition(position_);
+                return JsonData{};
+            }
+            ++depth_;
+            JsonData result = current_char == Def::LeftCurlyBracket ? ParseObject() : ParseArray();
+            --depth_;
+            return result;
         }
         if (current_char == Def::LatinSmallLetterT || current_char == Def::LatinSmallLetterF)
         {
@@ -489,6 +495,7 @@ private:
     const String& json_;
     SizeType position_;
     SizeType errorPosition_;
+    SizeType depth_;
 };
 
 __CAITLYN_DETAIL_NAMESPACE_END
-- 
2.43.0


From 3962f1ccc0f0b5807e84811a3659c4baea4a7adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:40 +0000
Subject: [PATCH 66/68] fix: the square root of a decimal number with a
 fraction is right to its last digit

---
 include/Caitlyn/__Numeric/Types/BigFloat.h | 28 ++--------------------
 1 file changed, 2 insertions(+), 26 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigFloat.h b/include/Caitlyn/__Numeric/Types/BigFloat.h
index 68fff18..ca4acc8 100644
--- a/include/Caitlyn/__Numeric/Types/BigFloat.h
+++ b/include/Caitlyn/__Numeric/Types/BigFloat.h
@@ -160,38 +160,14 @@ public:
         return this->Multiply(*this);
     }
 
+    // The root is truncated to the number of fractional digits of the value
     BigFloat Sqrt() const
     {
         if (LessThan(BigFloat{"0"}))
         {
             throw std::invalid_argument{"Square root of negative number"};
         }
-        if (this->Equal(BigFloat{"0"}) || this->Equal(BigFloat{"1"}))
-        {
-            return *this;
-        }
-        BigFloat low{"1"};
-        BigFloat high = *this;
-        BigFloat squared{};
-
-        while (low.LessThan(high) || low.Equal(high))
-        {
-            BigFloat mid = low.Add(high).Divide(BigFloat{"2"});
-            squared = mid.Sqr();
-            if (squared.Equal(*this))
-            {
-                return mid;
-            }
-            if (squared.LessThan(*this))
-            {
-                low = mid.Add(BigFloat{"1"});
-            }
-            else
-            {
-                high = mid.Subtract(BigFloat{"1"});
-            }
-        }
-        return high;
+        return BigFloat{Unscaled(2 * scale_).Sqrt(), scale_};
     }
 
 public:
-- 
2.43.0


From e3e13c1a877e47220f9fcf13142748a3014b309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:40 +0000
Subject: [PATCH 67/68] fix: every JSON error has a description

---
 include/Caitlyn/__Serializing/Json/Utility.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Utility.h b/include/Caitlyn/__Serializing/Json/Utility.h
index b6a6ecc..31da3f6 100644
--- a/include/Caitlyn/__Serializing/Json/Utility.h
+++ b/include/Caitlyn/__Serializing/Json/Utility.h
@@ -43,8 +43,12 @@ inline const char* GetErrorString(const JsonError error)
             return "Unterminated array.";
         case JsonError::InvalidNumber:
             return "Invalid number.";
+        case JsonError::InvalidEscapeSequence:
+            return "Invalid escape sequence.";
         case JsonError::NumberConversionError:
             return "Number conversion error.";
+        case JsonError::OutOfRangeError:
+            return "Number out of range.";
         case JsonError::InvalidValue:
             return "Invalid value.";
         case JsonError::UnexpectedCharacter:
-- 
2.43.0


From 5d232829818f6ef942908b66a7501298207e0f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:40 +0000
Subject: [PATCH 68/68] fix: running the registered tests again counts only
 that run

---
 include/Caitlyn/__Testing/Types/TestRegistry.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Caitlyn/__Testing/Types/TestRegistry.h b/include/Caitlyn/__Testing/Types/TestRegistry.h
index fc2c323..84ce352 100644
--- a/include/Caitlyn/__Testing/Types/TestRegistry.h
+++ b/include/Caitlyn/__Testing/Types/TestRegistry.h
@@ -52,6 +52,9 @@ public:
 
     int RunAll()
     {
+        passed_ = 0;
+        failed_ = 0;
+
         LogStart();
 
         startGlobalTime_ = std::chrono::steady_clock::now();
-- 
2.43.0

