From 7cdc75e581484ffcf1267f8b41ee72cd94884c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:33 +0000
Subject: [PATCH 01/67] fix: Queue::first() and last() reject an empty queue

---
 src/include/containers/Queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/containers/Queue.h b/src/include/containers/Queue.h
index 1d140ee..80db91e 100644
--- a/src/include/containers/Queue.h
+++ b/src/include/containers/Queue.h
@@ -155,21 +155,25 @@ Queue<ValueType> Queue<ValueType>::operator=(const Queue& queue2) {
 
 template <typename ValueType>
 ValueType& Queue<ValueType>::first() {
+  emptyCheck();
   return privateQueue.front();
 }
 
 template <typename ValueType>
 const ValueType& Queue<ValueType>::first() const {
+  emptyCheck();
   return privateQueue.front();
 }
 
 template <typename ValueType>
 ValueType& Queue<ValueType>::last() {
+  emptyCheck();
   return privateQueue.back();
 }
 
 template <typename ValueType>
 const ValueType& Queue<ValueType>::last() const {
+  emptyCheck();
   return privateQueue.back();
 }
 
-- 
2.43.0


From dec8aafd916f9a5d4ef6f01bc9158514be710933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:01 +0000
Subject: [PATCH 02/67] fix: Random::nextInt does not overflow int for wide
 ranges

---
 src/random/Random.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/random/Random.cpp b/src/random/Random.cpp
index 15cfbc4..3ed5fc1 100644
--- a/src/random/Random.cpp
+++ b/src/random/Random.cpp
@@ -11,12 +11,14 @@ Random::Random(int seed) { randomGenerator.seed((std::uint64_t)seed); }
 
 int Random::nextInt(int min, int max) {
   if (max <= min) error("`max` should be larger than `min`");
-  return (int)(randomGenerator() % std::uint64_t(max - min)) + min;
+  auto range = std::uint64_t((std::int64_t)max - min);
+  return (int)((std::int64_t)(randomGenerator() % range) + min);
 }
 
 int Random::nextInt() {
-  return (int)(randomGenerator() % (std::uint64_t(intMax) + 1 - intMin)) +
-         intMin;
+  return (int)((std::int64_t)(randomGenerator() %
+                              (std::uint64_t(intMax) + 1 - intMin)) +
+               intMin);
 }
 
 int Random::nextInt(int max) {
-- 
2.43.0


From 7cf76273c36d57804a3a07628cf2c6baebe16b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:02 +0000
Subject: [PATCH 03/67] fix: Random::nextDouble never returns the excluded
 upper bound

---
 src/random/Random.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/random/Random.cpp b/src/random/Random.cpp
index 3ed5fc1..1359fda 100644
--- a/src/random/Random.cpp
+++ b/src/random/Random.cpp
@@ -1,5 +1,6 @@
 #include "random/Random.h"
 
+#include <cmath>
 #include <cstdlib>
 #include <ctime>
 
@@ -28,7 +29,9 @@ int Random::nextInt(int max) {
 
 double Random::nextDouble(double min, double max) {
   if (max < min) error("`max` should be larger than or equal to `min`");
-  return (double)randomGenerator() / int64Max * (max - min) + min;
+  double result = (double)randomGenerator() / int64Max * (max - min) + min;
+  // rounding may reach the excluded `max`
+  return result < max ? result : std::nextafter(max, min);
 }
 
 double Random::nextDouble(double max) {
-- 
2.43.0


From 37c289f29d527d60428091c68a8b152cd48794b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:06 +0000
Subject: [PATCH 04/67] fix: int - Fraction and int / Fraction use the operands
 in the written order

---
 src/include/math_utils/Fraction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/Fraction.h b/src/include/math_utils/Fraction.h
index 4d97ccd..d726e17 100644
--- a/src/include/math_utils/Fraction.h
+++ b/src/include/math_utils/Fraction.h
@@ -56,7 +56,7 @@ class Fraction {
   }
 
   friend Fraction operator-(int value, Fraction const &self) {
-    return self - value;
+    return Fraction(value) - self;
   }
 
   void operator-=(Fraction const &other) {
@@ -87,7 +87,7 @@ class Fraction {
   }
 
   friend Fraction operator/(int value, Fraction const &self) {
-    return self / value;
+    return Fraction(value) / self;
   }
 
   void operator/=(Fraction const &other) {
-- 
2.43.0


From 3abdba097dc5396d22cc532a749bf93c7863fda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:09 +0000
Subject: [PATCH 05/67] fix: Fraction::operator/= divides instead of truncating
 component-wise

---
 src/include/math_utils/Fraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/Fraction.h b/src/include/math_utils/Fraction.h
index d726e17..05d5912 100644
--- a/src/include/math_utils/Fraction.h
+++ b/src/include/math_utils/Fraction.h
@@ -91,7 +91,7 @@ class Fraction {
   }
 
   void operator/=(Fraction const &other) {
-    Fraction tmp(numerator / other.numerator, denominator / other.denominator);
+    Fraction tmp(numerator * other.denominator, denominator * other.numerator);
     numerator = tmp.numerator;
     denominator = tmp.denominator;
   }
-- 
2.43.0


From 1de67197722711f83a0b71a2d985e19d96da5a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:13 +0000
Subject: [PATCH 06/67] fix: binary powers do not overflow in a square that is
 never used

---
 src/include/math_utils/math_functions.h | 4 ++--
 src/math_utils/binary_pow.cpp           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index 918a454..978639e 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -422,8 +422,8 @@ BaseType genericBinaryPow(BaseType base, IntType exp) {
     if (exp % 2 == 1) {
       result *= base;
     }
-    base *= base;
     exp /= 2;
+    if (exp != 0) base *= base;
   }
   return result;
 }
@@ -443,8 +443,8 @@ BaseType genericBinaryPow(BaseType base, IntType exp) {
     if (exp % 2 == 1) {
       result *= base;
     }
-    base *= base;
     exp /= 2;
+    if (exp != 0) base *= base;
   }
   return result;
 }
diff --git a/src/math_utils/binary_pow.cpp b/src/math_utils/binary_pow.cpp
index 3536118..53520d7 100644
--- a/src/math_utils/binary_pow.cpp
+++ b/src/math_utils/binary_pow.cpp
@@ -12,8 +12,8 @@ int64_t binaryPow(int64_t base, int exp) {
     if (exp & 1) {  // exp % 2 == 1
       result *= base;
     }
-    base *= base;
     exp >>= 1;  // exp /= 2
+    if (exp) base *= base;
   }
   return result;
 }
-- 
2.43.0


From f20d58ed22bd8d2df354f0fe7d37f6f92bf4c6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:18 +0000
Subject: [PATCH 07/67] fix: permutation(n, 0) is 1

---
 src/include/math_utils/math_functions.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index 978639e..abbcd27 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -476,9 +476,8 @@ IntType factorial(IntType n) {
 template <typename IntType>
 IntType permutation(IntType n, IntType r) {
   if (n < 0 || r < 0 || r > n) error("Arguments invalid for permutation.");
-  IntType result = n;
-  n--;
-  for (; r > 1; r--, n--) {
+  IntType result = 1;
+  for (; r > 0; r--, n--) {
     result *= n;
   }
   return result;
-- 
2.43.0


From afb741673eba3046a7bd37be616a49b79c18f3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:32 +0000
Subject: [PATCH 08/67] fix: variance(const int*) does not overflow int or
 cancel to a negative value

---
 src/math_utils/statistics.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/math_utils/statistics.cpp b/src/math_utils/statistics.cpp
index cb50fad..51ffb88 100644
--- a/src/math_utils/statistics.cpp
+++ b/src/math_utils/statistics.cpp
@@ -15,11 +15,12 @@ double variance(const double* arr, int size) {
 
 double variance(const int* arr, int size) {
   double sum_square = 0.0;
+  double means = mean(arr, size);
   for (int i = 0; i < size; i++) {
-    sum_square += arr[i] * arr[i];
+    double mean_diff = arr[i] - means;
+    sum_square += mean_diff * mean_diff;
   }
-  double means = mean(arr, size);
-  return sum_square / size - means * means;
+  return sum_square / size;
 }
 
 double stddev(const double* arr, int size) {
-- 
2.43.0


From 0e1e8c4657827a08b1c150f5b32d4e4b79bc8db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:31 +0000
Subject: [PATCH 09/67] fix: reading a Vector rejects a malformed element
 instead of looping forever

---
 src/include/containers/Vector.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/include/containers/Vector.h b/src/include/containers/Vector.h
index 8503569..2fa4bc7 100644
--- a/src/include/containers/Vector.h
+++ b/src/include/containers/Vector.h
@@ -402,7 +402,7 @@ std::ostream& operator<<(std::ostream& os, const Vector<ValueType>& vec) {
 
 template <typename ValueType>
 std::istream& operator>>(std::istream& is, Vector<ValueType>& vec) {
-  char ch;
+  char ch = '\0';
   is >> ch;
   if (ch != '{') {
     error("A vector should startwith \'{\'");
@@ -413,7 +413,9 @@ std::istream& operator>>(std::istream& is, Vector<ValueType>& vec) {
     is.unget();
     while (true) {
       ValueType value;
-      is >> value;
+      if (!(is >> value)) {
+        error("Malformed element in a vector");
+      }
       vec.push(value);
       is >> ch;
       if (is.eof()) {
-- 
2.43.0


From 5297b093c4eb92450627ae5a9f9b8c2e2bfe29d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:06 +0000
Subject: [PATCH 10/67] fix: stringCast owns its text and never returns an
 uninitialised value

---
 src/include/string_utils/StringCast.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/string_utils/StringCast.h b/src/include/string_utils/StringCast.h
index 470be21..fb823a5 100644
--- a/src/include/string_utils/StringCast.h
+++ b/src/include/string_utils/StringCast.h
@@ -21,7 +21,7 @@ class stringCast {
   explicit stringCast(const std::string &from) : m_from(from) {}
   operator T() const {
     std::stringstream strStream(m_from);
-    T casted;
+    T casted = T();
     try {
       strStream >> casted;
     } catch (std::exception &e) {
@@ -33,7 +33,7 @@ class stringCast {
   T operator()() const { return static_cast<T>(*this); }
 
  private:
-  const std::string &m_from;
+  const std::string m_from;
 };
 }  // namespace cuhksz
 #endif  // CUHKSZ_STRINGUTILS_STRINGCAST
-- 
2.43.0


From 63ea2e522108d34517b9c06405e44decbc3413ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:07 +0000
Subject: [PATCH 11/67] fix: loadJSON rejects an unterminated string instead of
 reading past the text

---
 src/json/Json.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index efeda29..41f0a45 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -88,7 +88,12 @@ JSONObject parse_array(const std::string &str, size_t &offset) {
 JSONObject parse_string(const std::string &str, size_t &offset) {
   JSONObject String;
   std::string val;
-  for (char c = str[++offset]; c != '\"'; c = str[++offset]) {
+  while (true) {
+    if (++offset >= str.length()) {
+      error("String: Expected closing '\"', nothing remaining.");
+    }
+    char c = str[offset];
+    if (c == '\"') break;
     if (c == '\\') {
       switch (str[++offset]) {
         case '\"':
-- 
2.43.0


From 812d0617cc43143308519bcc6053a72689dfb2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:09 +0000
Subject: [PATCH 12/67] fix: loadJSON reads exponents correctly and never steps
 past the text after a number

---
 src/json/Json.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 41f0a45..f218a2e 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -1,6 +1,5 @@
 #include "json/Json.h"
 
-#include <cmath>
 #include <deque>
 #include <map>
 #include <string>
@@ -153,7 +152,6 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
   std::string val, exp_str;
   char c;
   bool isDouble = false;
-  int exp = 0;
   while (true) {
     c = str[offset++];
     if ((c == '-') || (c >= '0' && c <= '9')) {
@@ -165,13 +163,19 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
       break;
     }
   }
+  --offset;
   if (c == 'E' || c == 'e') {
-    if (offset == str.length()) {
+    if (++offset == str.length()) {
       error("Number: Expected a number for exponent, nothing remaining.");
     }
-    c = str[offset++];
-    if (c == '-') {
-      exp_str += '-';
+    c = str[offset];
+    if (c == '-' || c == '+') {
+      exp_str += c;
+      ++offset;
+    }
+    if (str[offset] < '0' || str[offset] > '9') {
+      error("Number: Expected a number for exponent, found '" +
+            std::string(1, str[offset]) + "'");
     }
     while (true) {
       c = str[offset];
@@ -186,16 +190,14 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
       }
       offset++;
     }
-    exp = cuhksz::stringCast<double>(exp_str);
   } else if (!isspace(c) && c != ',' && c != ']' && c != '}' && c != 0) {
     error("Number: unexpected character '" + std::string(1, c) + "'");
   }
-  if (c != 0) --offset;
 
-  if (isDouble)
-    Number = (double)cuhksz::stringCast<double>(val) * std::pow(10, exp);
-  else if (!exp_str.empty())
-    Number = (double)cuhksz::stringCast<double>(val) * std::pow(10, exp);
+  if (!exp_str.empty())
+    Number = (double)cuhksz::stringCast<double>(val + "e" + exp_str);
+  else if (isDouble)
+    Number = (double)cuhksz::stringCast<double>(val);
   else
     Number = (int)cuhksz::stringCast<int>(val);
   return Number;
-- 
2.43.0


From a841d87b01775d60e514c098f9d635be474e90c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:36 +0000
Subject: [PATCH 13/67] fix: JSON object keys are stored as the text they
 denote and escaped by dump()

---
 src/json/Json.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index f218a2e..f4a1db3 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -10,6 +10,7 @@
 namespace cuhksz {
 namespace {
 JSONObject parse_next(const std::string &str, size_t &offset);
+std::string parse_raw_string(const std::string &str, size_t &offset);
 
 void skip_whitespaces(const std::string &str, size_t &offset) {
   while (isspace(str[offset])) ++offset;
@@ -26,7 +27,12 @@ JSONObject parse_object(const std::string &str, size_t &offset) {
   }
 
   while (true) {
-    JSONObject Key = parse_next(str, offset);
+    skip_whitespaces(str, offset);
+    if (str[offset] != '\"') {
+      error("Object: Expected string key, found '" +
+            std::string(1, str[offset]) + "'");
+    }
+    std::string Key = parse_raw_string(str, offset);
     skip_whitespaces(str, offset);
     if (str[offset] != ':') {
       error("Object: Expected colon, found '" + std::string(1, str[offset]) +
@@ -35,7 +41,7 @@ JSONObject parse_object(const std::string &str, size_t &offset) {
     }
     skip_whitespaces(str, ++offset);
     JSONObject Value = parse_next(str, offset);
-    Object[Key.toString()] = Value;
+    Object[Key] = Value;
 
     skip_whitespaces(str, offset);
     if (str[offset] == ',') {
@@ -84,8 +90,7 @@ JSONObject parse_array(const std::string &str, size_t &offset) {
   return Array;
 }
 
-JSONObject parse_string(const std::string &str, size_t &offset) {
-  JSONObject String;
+std::string parse_raw_string(const std::string &str, size_t &offset) {
   std::string val;
   while (true) {
     if (++offset >= str.length()) {
@@ -143,8 +148,11 @@ JSONObject parse_string(const std::string &str, size_t &offset) {
     }
   }
   ++offset;
-  String = val;
-  return String;
+  return val;
+}
+
+JSONObject parse_string(const std::string &str, size_t &offset) {
+  return JSONObject(parse_raw_string(str, offset));
 }
 
 JSONObject parse_number(const std::string &str, size_t &offset) {
@@ -253,7 +261,8 @@ JSONObject::JSONObject() : Data(), objType(Type::Null) {}
 JSONObject::JSONObject(std::initializer_list<JSONObject> list) : JSONObject() {
   setType(Type::Object);
   for (auto i = list.begin(), e = list.end(); i != e; ++i, ++i)
-    operator[](i->toString()) = *std::next(i);
+    operator[](i->objType == Type::String ? *i->Data.String : std::string()) =
+        *std::next(i);
 }
 
 JSONObject::JSONObject(JSONObject &&other)
@@ -446,7 +455,8 @@ std::string JSONObject::dump(int depth, std::string tab) const {
       bool skip = true;
       for (auto &p : *Data.Map) {
         if (!skip) s += ",\n";
-        s += (pad + "\"" + p.first + "\" : " + p.second.dump(depth + 1, tab));
+        s += (pad + "\"" + jsonEscape(p.first) +
+              "\" : " + p.second.dump(depth + 1, tab));
         skip = false;
       }
       s += ("\n" + pad.erase(0, 2) + "}");
-- 
2.43.0


From 29c829d077b2f07c4ca85d5941b3b2b4ae92dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:37 +0000
Subject: [PATCH 14/67] fix: assigning a JSONObject from itself or from one of
 its elements

---
 src/json/Json.cpp | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index f4a1db3..b15d60a 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -339,33 +339,19 @@ JSONObject::JSONObject(const JSONObject &src) {
 }
 
 JSONObject &JSONObject::operator=(JSONObject &&src) {
-  clearData();
-  Data = src.Data;
-  objType = src.objType;
+  // src may be this object or a part of it: take its data before clearing
+  auto data = src.Data;
+  Type type = src.objType;
   src.Data.Map = nullptr;
   src.objType = Type::Null;
+  clearData();
+  Data = data;
+  objType = type;
   return *this;
 }
 
 JSONObject &JSONObject::operator=(const JSONObject &src) {
-  clearData();
-  switch (src.objType) {
-    case Type::Object:
-      Data.Map = new std::map<std::string, JSONObject>(src.Data.Map->begin(),
-                                                       src.Data.Map->end());
-      break;
-    case Type::Array:
-      Data.List = new std::deque<JSONObject>(src.Data.List->begin(),
-                                             src.Data.List->end());
-      break;
-    case Type::String:
-      Data.String = new std::string(*src.Data.String);
-      break;
-    default:
-      Data = src.Data;
-  }
-  objType = src.objType;
-  return *this;
+  return *this = JSONObject(src);
 }
 
 JSONObject &JSONObject::operator[](const char key[]) {
-- 
2.43.0


From 4d253139cf4ce15071aaa6b31296fd9184f58fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:39 +0000
Subject: [PATCH 15/67] fix: JSONObject rejects a negative index and const
 access to a missing element

---
 src/json/Json.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index b15d60a..e2f0f4e 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -366,6 +366,7 @@ JSONObject &JSONObject::operator[](const std::string &key) {
 }
 
 JSONObject &JSONObject::operator[](int index) {
+  if (index < 0) error("JSONObject: negative index");
   setType(Type::Array);
   if (index >= (int)Data.List->size()) Data.List->resize((size_t)(index + 1));
   return Data.List->operator[]((size_t)index);
@@ -374,13 +375,16 @@ JSONObject &JSONObject::operator[](int index) {
 JSONObject &JSONObject::at(const std::string &key) { return operator[](key); }
 
 const JSONObject &JSONObject::at(const std::string &key) const {
-  return Data.Map->operator[](key);
+  if (!hasKey(key)) error("JSONObject: no such key");
+  return Data.Map->find(key)->second;
 }
 
 JSONObject &JSONObject::at(unsigned index) { return operator[](index); }
 
 const JSONObject &JSONObject::at(unsigned index) const {
-  return Data.List->at(index);
+  if (objType != Type::Array || index >= Data.List->size())
+    error("JSONObject: no such index");
+  return (*Data.List)[index];
 }
 
 int JSONObject::length() const {
-- 
2.43.0


From e574222adc20472ec070ed0bfd6633ce554ab7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:42 +0000
Subject: [PATCH 16/67] fix: begin()/end() of a const JSONIterator do not call
 themselves forever

---
 src/include/json/Json.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/json/Json.h b/src/include/json/Json.h
index 64967c3..808686a 100644
--- a/src/include/json/Json.h
+++ b/src/include/json/Json.h
@@ -28,8 +28,12 @@ class JSONIterator {
   typename Container::iterator end() {
     return object ? object->end() : typename Container::iterator();
   }
-  typename Container::const_iterator begin() const { return begin(); }
-  typename Container::const_iterator end() const { return end(); }
+  typename Container::const_iterator begin() const {
+    return object ? object->begin() : typename Container::iterator();
+  }
+  typename Container::const_iterator end() const {
+    return object ? object->end() : typename Container::iterator();
+  }
 };
 
 /**
-- 
2.43.0


From e2a2614ce179d84f4a7d0dde62581e939874363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:44 +0000
Subject: [PATCH 17/67] fix: a JSONObject list with a key but no value is
 rejected, not read past its end

---
 src/json/Json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index e2f0f4e..1fafce9 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -259,6 +259,7 @@ JSONObject parse_next(const std::string &str, size_t &offset) {
 JSONObject::JSONObject() : Data(), objType(Type::Null) {}
 
 JSONObject::JSONObject(std::initializer_list<JSONObject> list) : JSONObject() {
+  if (list.size() % 2 != 0) error("JSONObject: key without a value");
   setType(Type::Object);
   for (auto i = list.begin(), e = list.end(); i != e; ++i, ++i)
     operator[](i->objType == Type::String ? *i->Data.String : std::string()) =
-- 
2.43.0


From af46971bb88fa26ad0d7207f5f70bfefa8fb3104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:47 +0000
Subject: [PATCH 18/67] fix: assigning nullptr to a JSONObject makes it null
 instead of throwing

---
 src/include/json/Json.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/include/json/Json.h b/src/include/json/Json.h
index 808686a..135e07c 100644
--- a/src/include/json/Json.h
+++ b/src/include/json/Json.h
@@ -200,6 +200,15 @@ class JSONObject {
    */
   JSONObject(const JSONObject &src);
 
+  /**
+   * Make the JSONObject null.
+   * @return *this
+   */
+  JSONObject &operator=(std::nullptr_t) {
+    setType(Type::Null);
+    return *this;
+  }
+
   /**
    * Load a bool into the JSONObject.
    * @tparam T Bool
-- 
2.43.0


From 7ffdc518c37a6a22c687f5208dc7843c91b17264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:44 +0000
Subject: [PATCH 19/67] fix: base64Decode keeps zero bytes

---
 src/base64/base64_functions.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/base64/base64_functions.cpp b/src/base64/base64_functions.cpp
index e110d2a..5e0b523 100644
--- a/src/base64/base64_functions.cpp
+++ b/src/base64/base64_functions.cpp
@@ -61,15 +61,12 @@ std::string base64Decode(std::string decodeStr) {
       binaryDecodeStr += std::bitset<6>(std::string{codes}.find(c)).to_string();
     }
   }
-  if (binaryDecodeStr.length() % 8) {
-    binaryDecodeStr += std::string(8 - binaryDecodeStr.length() % 8, '0');
-  }
+  // drop the zero bits that fill up the last base64 digit
+  binaryDecodeStr.resize(binaryDecodeStr.length() / 8 * 8);
   for (std::size_t i = 0; i < binaryDecodeStr.length(); i += 8) {
     int index =
         (int)std::bitset<8>(binaryDecodeStr.substr((uint64_t)i, 8)).to_ulong();
-    if (index != 0) {
-      decoded << char(index);
-    }
+    decoded << char(index);
   }
   return decoded.str();
 }
-- 
2.43.0


From 4b7afd898c67e017142cfd1c6b538e722483857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:45 +0000
Subject: [PATCH 20/67] fix: urlDecode does not read past a truncated escape

---
 src/network/network_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/network_functions.cpp b/src/network/network_functions.cpp
index d10efba..6b16847 100644
--- a/src/network/network_functions.cpp
+++ b/src/network/network_functions.cpp
@@ -51,7 +51,7 @@ std::string urlDecode(const std::string str) {
   for (size_t i = 0; i < length; i++) {
     if (str[i] == '+') {
       escaped << ' ';
-    } else if (str[i] == '%') {
+    } else if (str[i] == '%' && i + 2 < length) {
       int high = hexToInt(str[++i]);
       int low = hexToInt(str[++i]);
 
-- 
2.43.0


From e0d3fbdf2ae59775d7b44b8c1da8a628e7a6a765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:46 +0000
Subject: [PATCH 21/67] fix: kmpSearch accepts an empty pattern and a start
 beyond the text

---
 src/algorithm/kmp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithm/kmp.cpp b/src/algorithm/kmp.cpp
index cfa6286..0c55f15 100644
--- a/src/algorithm/kmp.cpp
+++ b/src/algorithm/kmp.cpp
@@ -6,6 +6,9 @@
 namespace cuhksz {
 int kmpSearch(const std::string& base, const std::string& pattern,
               std::size_t start) {
+  if (start > base.size()) return -1;
+  if (pattern.empty()) return start;
+
   // generate next table
   int psize = pattern.size();
   std::unique_ptr<int[]> next = std::unique_ptr<int[]>(new int[psize]);
-- 
2.43.0


From 80688e5a382ee8bedde2e3c7dfc7eafa6ddbd6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:27 +0000
Subject: [PATCH 22/67] fix: copying a BigNum copies every digit, so stale
 digits never enter a sum

---
 src/include/math_utils/BigNum.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 9890803..a302612 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -43,7 +43,7 @@ class BigNum {
   BigNum(const BigNum& src) {
     sign = src.sign;
     len = src.len;
-    std::memcpy(elem, src.elem, len * sizeof(int));
+    std::memcpy(elem, src.elem, MAX_SIZE * sizeof(int));
   }
 
   ~BigNum() {}
@@ -52,7 +52,7 @@ class BigNum {
   BigNum& operator=(const BigNum& src) {
     sign = src.sign;
     len = src.len;
-    std::memcpy(elem, src.elem, len * sizeof(int));
+    std::memmove(elem, src.elem, MAX_SIZE * sizeof(int));
     return *this;
   }
 
-- 
2.43.0


From 6d2ed2d101e2b14e795ab15c9798d7c8c4ae0929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:29 +0000
Subject: [PATCH 23/67] fix: adding BigNums of opposite sign compares
 magnitudes (endless recursion)

---
 src/include/math_utils/BigNum.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index a302612..bde02f5 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -238,9 +238,10 @@ class BigNum {
 
   friend int cmp(const BigNum& a, const BigNum& b, bool isAbs = false) {
     if (!isAbs && a.sign != b.sign) return a.sign > b.sign ? 1 : -1;
-    if (a.len != b.len) return a.len > b.len ? a.sign : -a.sign;
+    int greater = isAbs ? 1 : a.sign;
+    if (a.len != b.len) return a.len > b.len ? greater : -greater;
     for (int i = a.len - 1; i >= 0; i--)
-      if (a[i] != b[i]) return a[i] > b[i] ? a.sign : -a.sign;
+      if (a[i] != b[i]) return a[i] > b[i] ? greater : -greater;
     return 0;
   }
 
-- 
2.43.0


From 8dde09eaa4cfa9d2fbc2ba0ce2efb0da84864b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:31 +0000
Subject: [PATCH 24/67] fix: the sign of a BigNum product depends on both
 factors

---
 src/include/math_utils/BigNum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index bde02f5..e959f23 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -292,7 +292,7 @@ class BigNum {
       ret[i] %= BigNum::base;
     }
     if (ret[ret.len]) ret.len++;
-    ret.sign = a.sign;
+    ret.sign = a.sign * b.sign;
     return ret;
   }
 
-- 
2.43.0


From 34459a0198f6f111e120057c03a845d124210278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:34 +0000
Subject: [PATCH 25/67] fix: BigNum has one zero, printed as 0, and ignores
 leading zeros

---
 src/include/math_utils/BigNum.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index e959f23..82faf0e 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -38,6 +38,8 @@ class BigNum {
     if ((s.size() - (s[0] == '-')) % BigNum::order)
       elem[len++] = std::stoi(
           s.substr((s[0] == '-'), (s.size() - (s[0] == '-')) % BigNum::order));
+    while (len > 0 && !elem[len - 1]) len--;
+    if (len == 0) sign = 1;
   }
 
   BigNum(const BigNum& src) {
@@ -210,7 +212,7 @@ class BigNum {
   // other
   BigNum operator-() const {
     BigNum ret = *this;
-    ret.sign = -ret.sign;
+    if (ret.len > 0) ret.sign = -ret.sign;
     return ret;
   }
 
@@ -305,6 +307,7 @@ class BigNum {
 
   std::string toString() const {
     std::string s;
+    if (len == 0) return "0";
     if (sign < 0) s += "-";
     for (int i = len - 1; i >= 0; i--) s += std::to_string(elem[i]);
     return s;
-- 
2.43.0


From af412bc9b5e1d934a14484e113d29fbbe0ff05ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:36 +0000
Subject: [PATCH 26/67] fix: BigNum *=, postfix ++/-- and abs() can be used and
 return values

---
 src/include/math_utils/BigNum.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 82faf0e..8adf3a7 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -198,7 +198,7 @@ class BigNum {
     return ret;
   }
 
-  BigNum& operator*=(const BigNum& other) const {
+  BigNum& operator*=(const BigNum& other) {
     *this = mul(*this, other);
     return *this;
   }
@@ -221,7 +221,7 @@ class BigNum {
     return *this;
   }
 
-  BigNum& operator++(int) {  // postfix ++
+  BigNum operator++(int) {  // postfix ++
     BigNum ret = *this;
     ++(*this);
     return ret;
@@ -232,7 +232,7 @@ class BigNum {
     return *this;
   }
 
-  BigNum& operator--(int) {
+  BigNum operator--(int) {
     BigNum ret = *this;
     --(*this);
     return ret;
@@ -298,12 +298,13 @@ class BigNum {
     return ret;
   }
 
-  BigNum& abs() const {
-    sign = 1;
-    return *this;
+  BigNum abs() const {
+    BigNum ret = *this;
+    ret.sign = 1;
+    return ret;
   }
 
-  friend BigNum& abs(const BigNum& a) { return a.abs(); }
+  friend BigNum abs(const BigNum& a) { return a.abs(); }
 
   std::string toString() const {
     std::string s;
-- 
2.43.0


From 743cba75d8c6931a080a13a54525faf59c9a902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:38 +0000
Subject: [PATCH 27/67] fix: BigNum(INT64_MIN) does not overflow

---
 src/include/math_utils/BigNum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 8adf3a7..9d91f10 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -24,7 +24,7 @@ class BigNum {
     len = 0;
     sign = x < 0 ? -1 : 1;
     std::memset(elem, 0, MAX_SIZE * sizeof(int));
-    for (int64_t i = std::abs(x); i; i /= BigNum::base)
+    for (uint64_t i = x < 0 ? 0 - (uint64_t)x : x; i; i /= BigNum::base)
       elem[len++] = i % BigNum::base;
   }
 
-- 
2.43.0


From 949f85ac80bd88385d11ae2096435ad6fa3ea5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:40 +0000
Subject: [PATCH 28/67] fix: BigNum results that fill the capacity do not touch
 the digit beyond it

---
 src/include/math_utils/BigNum.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 9d91f10..be46f05 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -256,7 +256,7 @@ class BigNum {
         ret[i] -= BigNum::base;
         ret[i + 1]++;
       }
-    if (ret[ret.len]) ret.len++;
+    if (ret.len < MAX_SIZE && ret[ret.len]) ret.len++;
     ret.sign = a.sign;
     return ret;
   }
@@ -290,10 +290,11 @@ class BigNum {
         ret[i + j] += a[i] * b[j];
       }
     for (int i = 0; i < ret.len; i++) {
-      ret[i + 1] += ret[i] / BigNum::base;
+      int carry = ret[i] / BigNum::base;
       ret[i] %= BigNum::base;
+      if (carry) ret[i + 1] += carry;
     }
-    if (ret[ret.len]) ret.len++;
+    if (ret.len < MAX_SIZE && ret[ret.len]) ret.len++;
     ret.sign = a.sign * b.sign;
     return ret;
   }
-- 
2.43.0


From c96c3e32bef8f2be0e0a708982c48f7689aaf502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:26 +0000
Subject: [PATCH 29/67] fix: Fraction arithmetic and comparison do not overflow
 when the result fits int

---
 src/include/math_utils/Fraction.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/include/math_utils/Fraction.h b/src/include/math_utils/Fraction.h
index 05d5912..f003f58 100644
--- a/src/include/math_utils/Fraction.h
+++ b/src/include/math_utils/Fraction.h
@@ -2,6 +2,8 @@
 #define CUHKSZ_MATH_FRACTION
 
 #include <cmath>
+#include <cstdint>
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include "math_utils/math_functions.h"
@@ -16,17 +18,17 @@ class Fraction {
   Fraction(int const integer)
       : Fraction(integer, 1) {}  // allow implicit conversion
 
-  Fraction(int const numerator, int const denominator)
+  Fraction(int64_t const numerator, int64_t const denominator)
       : numerator(numerator), denominator(denominator) {
     if (denominator == 0) {
       error("Divide by Zero error");
     }
-    int divisor = gcd(numerator, denominator);
+    int64_t divisor = gcd(numerator, denominator);
     Fraction::numerator /= divisor, Fraction::denominator /= divisor;
     if (Fraction::denominator < 0) {
       Fraction::numerator *= -1;
     }
-    Fraction::denominator = abs(Fraction::denominator);
+    Fraction::denominator = std::abs(Fraction::denominator);
   }
 
   int getNumerator() { return numerator; }
@@ -125,7 +127,7 @@ class Fraction {
   }
 
  private:
-  int numerator, denominator;
+  int64_t numerator, denominator;
 };
 
 }  // namespace cuhksz
-- 
2.43.0


From db4e5fd7f04955c21a5a14f9fbe7f0a5347281bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:29 +0000
Subject: [PATCH 30/67] fix: Matrix product does not leak or free its elements
 twice

---
 src/include/math_utils/Matrix.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index c613792..9be5cd4 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -69,23 +69,22 @@ class Matrix {
 
   Matrix operator*(const Matrix& other) const {
     assert(col == other.row);
-    Matrix* ret = new Matrix(row, other.col);
-    for (int i = 0; i < ret->row; i++)
-      for (int j = 0; j < ret->col; j++)
+    Matrix ret(row, other.col);
+    for (int i = 0; i < ret.row; i++)
+      for (int j = 0; j < ret.col; j++)
         for (int k = 0; k < col; k++)
-          (*ret)[i][j] += (*this)[i][k] * other[k][j];
-    return *ret;
+          ret[i][j] += (*this)[i][k] * other[k][j];
+    return ret;
   }
 
   Matrix& operator*=(const Matrix& other) {
     assert(col == other.row);
-    Matrix* ret = new Matrix(row, other.col);
-    for (int i = 0; i < ret->row; i++)
-      for (int j = 0; j < ret->col; j++)
+    Matrix ret(row, other.col);
+    for (int i = 0; i < ret.row; i++)
+      for (int j = 0; j < ret.col; j++)
         for (int k = 0; k < col; k++)
-          (*ret)[i][j] += (*this)[i][k] * other[k][j];
-    clear();
-    *this = *ret;
+          ret[i][j] += (*this)[i][k] * other[k][j];
+    *this = ret;
     return *this;
   }
 
-- 
2.43.0


From 75efab42d5734d60be9b323e931792ce781b7ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:31 +0000
Subject: [PATCH 31/67] fix: idMat can be called and Matrix can be used with
 two element types

---
 src/include/math_utils/Matrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 9be5cd4..c9cee12 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -132,10 +132,10 @@ class Matrix {
     }
   }
 
-  friend Matrix& idMat(int n) {
-    Matrix* ret = new Matrix(n);
-    for (int i = 0; i < n; i++) (*ret)[i][i] = 1;
-    return *ret;
+  static Matrix idMat(int n) {
+    Matrix ret(n);
+    for (int i = 0; i < n; i++) ret[i][i] = 1;
+    return ret;
   }
 
   friend Matrix& pow(const Matrix& src, unsigned int n) {
-- 
2.43.0


From da5a6e92f1f54d84b40393c4c91173e70597de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:33 +0000
Subject: [PATCH 32/67] fix: Matrix pow squares, supports exponent 0 and does
 not leak

---
 src/include/math_utils/Matrix.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index c9cee12..a289ea0 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -138,13 +138,12 @@ class Matrix {
     return ret;
   }
 
-  friend Matrix& pow(const Matrix& src, unsigned int n) {
-    if (n == 1) {
-      Matrix* ret = new Matrix(src);
-      return *ret;
-    }
+  friend Matrix pow(const Matrix& src, unsigned int n) {
+    if (n == 0) return idMat(src.row);
+    if (n == 1) return src;
 
-    Matrix& ret = pow(src, n >> 1);
+    Matrix ret = pow(src, n >> 1);
+    ret *= ret;
     if (n & 1) ret *= src;
     return ret;
   }
-- 
2.43.0


From 0c05041b95563629ca0657c0cc9b750f3b0ef859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:36 +0000
Subject: [PATCH 33/67] fix: Matrix reduce does not read an uninitialised row
 when columns run out

---
 src/include/math_utils/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index a289ea0..749395e 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -151,7 +151,7 @@ class Matrix {
   void reduce() {
     Matrix& A = *this;
     for (int i = 0, r = 0; i < row; i++) {
-      int nonZeroRow;
+      int nonZeroRow = -1;
       while (r < col) {
         nonZeroRow = -1;
         for (int j = i; j < row; j++)
-- 
2.43.0


From d7c1e9652f98576afe52d99f4f17ecc701f552f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:38 +0000
Subject: [PATCH 34/67] fix: Matrix(n, m) initialises class-type elements
 instead of zeroing their memory

---
 src/include/math_utils/Matrix.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 749395e..252cecb 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -4,7 +4,6 @@
 #include <cassert>
 #include <cmath>
 #include <cstdlib>
-#include <cstring>
 #include <fstream>
 #include <string>
 #include <utility>
@@ -20,8 +19,7 @@ class Matrix {
   Matrix(int n, int m) : row(n), col(m) {
     elem = new ValueType*[row];
     for (int i = 0; i < row; i++) {
-      elem[i] = new ValueType[col];
-      std::memset(elem[i], 0, col * sizeof(ValueType));
+      elem[i] = new ValueType[col]();
     }
   }
 
-- 
2.43.0


From 17e038ce936ab99fd5330d652d7e5bb82ce21853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:24 +0000
Subject: [PATCH 35/67] fix: lcm does not overflow when the least common
 multiple fits

---
 src/include/math_utils/math_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index abbcd27..6eede49 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -31,7 +31,7 @@ auto gcd(IntType1 a, IntType2 b) ->
 
 /**
   Least common multiple function.
-  The result is simply calculated by `a * b / gcd(a, b)`. Parameters `a` and `b`
+  The result is simply calculated by `a / gcd(a, b) * b`. Parameters `a` and `b`
   should be both integers, and the return type is the more precise type in `a`
   and `b`.
   @return If one of the parameter is 0, returns 0. Otherwise returns
@@ -42,7 +42,7 @@ auto gcd(IntType1 a, IntType2 b) ->
 template <typename IntType1, typename IntType2>
 auto lcm(IntType1 a, IntType2 b) ->
     typename std::common_type<IntType1, IntType2>::type {
-  return a * b / gcd(a, b);
+  return a / gcd(a, b) * b;
 }
 
 /**
-- 
2.43.0


From a02e3fd1e111dae801ddbdd903c8bd8984d1ed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:29 +0000
Subject: [PATCH 36/67] fix: mean of integers does not overflow the element
 type

---
 src/include/math_utils/math_functions.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index 6eede49..d235cf6 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -142,7 +142,7 @@ auto sum(const Container& arr, Function fn) ->
 **/
 template <typename Type>
 double mean(const Type* arr, int size) {
-  return (double)sum(arr, size) / size;
+  return sum(arr, size, [](Type value) { return (double)value; }) / size;
 }
 
 /**
@@ -157,7 +157,11 @@ double mean(const Type* arr, int size) {
 **/
 template <typename Container>
 double mean(const Container& arr) {
-  return (double)sum(arr) / arr.size();
+  return sum(arr,
+             [](typename Container::value_type value) {
+               return (double)value;
+             }) /
+         arr.size();
 }
 
 /**
-- 
2.43.0


From 0aea5abe52e3e3b8bc23a06a11dddb1680b74baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:07 +0000
Subject: [PATCH 37/67] fix: binomial can be used with integer types narrower
 than int

---
 src/include/math_utils/math_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index d235cf6..5f4d3d9 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -501,7 +501,7 @@ template <typename IntType>
 IntType binomial(IntType n, IntType r) {
   if (n < 0 || r < 0 || r > n) error("Arguments invalid for binomial.");
   if (r == 0) return 1;
-  if (r > n / 2) return binomial(n, n - r);
+  if (r > n / 2) return binomial<IntType>(n, n - r);
   std::unique_ptr<IntType[]> combination(new IntType[r]);
   for (int i = 0; i < r; i++) combination[i] = 1;
   for (int i = 0; i < n - r; i++) {
-- 
2.43.0


From fe2e255ec3357c9d2bd596ce3822ab580c580da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:29 +0000
Subject: [PATCH 38/67] fix: Point operators do not leak their result

---
 src/include/geometry/Point.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/geometry/Point.h b/src/include/geometry/Point.h
index de7348c..38bc76d 100644
--- a/src/include/geometry/Point.h
+++ b/src/include/geometry/Point.h
@@ -46,13 +46,13 @@ class Point {
 
   // TODO: what about init a null Point then assign to elem[i] + other.elem[i]
   Point operator+(Point const& other) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] + other.elem[i];
     return ret;
   }
 
   Point operator-(Point const& other) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] - other.elem[i];
     return ret;
   }
@@ -75,7 +75,7 @@ class Point {
   }
 
   Point operator*(double const& constant) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] * constant;
     return ret;
   }
@@ -90,7 +90,7 @@ class Point {
   }
 
   Point operator/(double const& constant) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] / constant;
     return ret;
   }
-- 
2.43.0


From f619e322f101fe5fc8d3eea6ada78dc957779cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:49 +0000
Subject: [PATCH 39/67] fix: SegmentTree updates of a leaf do not write past
 the tree

---
 src/include/graph/SegmentTree.h | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index 1ef57a7..1d07fb9 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -80,21 +80,23 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     minVal[o] *= mulFlag[o];
     maxVal[o] *= mulFlag[o];
     sumVal[o] *= mulFlag[o];
-    if (hasMulFlag[ls]) {
-      mulFlag[ls] *= mulFlag[o];
-    } else {
-      hasMulFlag[ls] = true;
-      mulFlag[ls] = mulFlag[o];
-    }
-    if (hasAddFlag[ls]) addFlag[ls] *= mulFlag[o];
-
-    if (hasMulFlag[rs]) {
-      mulFlag[rs] *= mulFlag[o];
-    } else {
-      hasMulFlag[rs] = true;
-      mulFlag[rs] = mulFlag[o];
+    if (l != r) {
+      if (hasMulFlag[ls]) {
+        mulFlag[ls] *= mulFlag[o];
+      } else {
+        hasMulFlag[ls] = true;
+        mulFlag[ls] = mulFlag[o];
+      }
+      if (hasAddFlag[ls]) addFlag[ls] *= mulFlag[o];
+
+      if (hasMulFlag[rs]) {
+        mulFlag[rs] *= mulFlag[o];
+      } else {
+        hasMulFlag[rs] = true;
+        mulFlag[rs] = mulFlag[o];
+      }
+      if (hasAddFlag[rs]) addFlag[rs] *= mulFlag[o];
     }
-    if (hasAddFlag[rs]) addFlag[rs] *= mulFlag[o];
   }
 
   if (hasAddFlag[o]) {
@@ -102,6 +104,7 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     minVal[o] += addFlag[o];
     maxVal[o] += addFlag[o];
     sumVal[o] += addFlag[o] * (r - l + 1);
+    if (l == r) return;
     if (hasAddFlag[ls]) {
       addFlag[ls] += addFlag[o];
     } else {
-- 
2.43.0


From ddab148c3d6a5b658c14a8b06a6a8f9ace35f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:57 +0000
Subject: [PATCH 40/67] fix: SegmentTree minimum and maximum after a negative
 factor

---
 src/include/graph/SegmentTree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index 1d07fb9..dae7b7b 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -79,6 +79,7 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     hasMulFlag[o] = false;
     minVal[o] *= mulFlag[o];
     maxVal[o] *= mulFlag[o];
+    if (maxVal[o] < minVal[o]) std::swap(minVal[o], maxVal[o]);
     sumVal[o] *= mulFlag[o];
     if (l != r) {
       if (hasMulFlag[ls]) {
-- 
2.43.0


From b8fa0ec5ba215329098e4a909fa1b3b3707cc104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:05 +0000
Subject: [PATCH 41/67] fix: SegmentTree range updates reach enclosing ranges

---
 src/include/graph/SegmentTree.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index dae7b7b..94e527c 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -36,6 +36,7 @@ class SegmentTree {
   int size;
 
   void update(int o, int l, int r);
+  void pullUp(int o, int l, int r);
 };
 
 template <typename ValueType>
@@ -121,6 +122,17 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
   }
 }
 
+template <typename ValueType>
+void SegmentTree<ValueType>::pullUp(int o, int l, int r) {
+  int mid = (l + r) >> 1;
+  int ls = o << 1, rs = (o << 1) | 1;
+  update(ls, l, mid);
+  update(rs, mid + 1, r);
+  minVal[o] = std::min(minVal[ls], minVal[rs]);
+  maxVal[o] = std::max(maxVal[ls], maxVal[rs]);
+  sumVal[o] = sumVal[ls] + sumVal[rs];
+}
+
 template <typename ValueType>
 ValueType SegmentTree<ValueType>::queryMax(int lv, int rv) {
   return queryMax(lv, rv, 0, size - 1, 1);
@@ -192,6 +204,7 @@ void SegmentTree<ValueType>::addInterval(int lv, int rv, ValueType x, int l,
   int ls = o << 1, rs = (o << 1) | 1;
   if (lv <= mid) addInterval(lv, rv, x, l, mid, ls);
   if (rv > mid) addInterval(lv, rv, x, mid + 1, r, rs);
+  pullUp(o, l, r);
 }
 
 template <typename ValueType>
@@ -212,6 +225,7 @@ void SegmentTree<ValueType>::mulInterval(int lv, int rv, ValueType x, int l,
   int ls = o << 1, rs = (o << 1) | 1;
   if (lv <= mid) mulInterval(lv, rv, x, l, mid, ls);
   if (rv > mid) mulInterval(lv, rv, x, mid + 1, r, rs);
+  pullUp(o, l, r);
 }
 
 }  // namespace cuhksz
-- 
2.43.0


From 1b036a2ea7f1f7e33a287339aa9d84a948474428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:54 +0000
Subject: [PATCH 42/67] fix: BST erase keeps the left subtree when there is no
 right one

---
 src/graph/BST.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index ea52e25..e581053 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -86,7 +86,7 @@ void BST::erase(BSTNode* x) {
     root = x->ch[1];
     root->fa = nullptr;
   } else if (x->ch[0] != nullptr && x->ch[1] == nullptr) {
-    root = x->ch[1];
+    root = x->ch[0];
     root->fa = nullptr;
   } else {
     root = pre(x);
-- 
2.43.0


From cdaa685246b50bf94167b95dd5f933b7dd06d706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:55 +0000
Subject: [PATCH 43/67] fix: BST erase links both subtrees to the new root

---
 src/graph/BST.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index e581053..8024317 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -98,6 +98,8 @@ void BST::erase(BSTNode* x) {
     root->fa = nullptr;
     root->ch[0] = x->ch[0];
     root->ch[1] = x->ch[1];
+    if (root->ch[0] != nullptr) root->ch[0]->fa = root;
+    root->ch[1]->fa = root;
   }
 }
 
-- 
2.43.0


From 10d78fa8563fcd7900b4c9aac60ddd5fc77339b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:56 +0000
Subject: [PATCH 44/67] fix: BST erase detaches the node so that it can be
 inserted again

---
 src/graph/BST.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index 8024317..651f0c4 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -101,6 +101,7 @@ void BST::erase(BSTNode* x) {
     if (root->ch[0] != nullptr) root->ch[0]->fa = root;
     root->ch[1]->fa = root;
   }
+  x->ch[0] = x->ch[1] = x->fa = nullptr;
 }
 
 BSTNode* BST::find(int k) {
-- 
2.43.0


From abc8de4f1039ab2175fa8e531dbe1a28fed25684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:57 +0000
Subject: [PATCH 45/67] fix: BST pre and suf look beyond the subtree of the
 node

---
 src/graph/BST.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index 651f0c4..6504222 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -43,6 +43,7 @@ void BST::splay(BSTNode* x) {
 }
 
 BSTNode* BST::pre(BSTNode* x) {
+  splay(x);
   BSTNode* cur = x->ch[0];
   if (cur == nullptr) return nullptr;
   while (cur->ch[1] != nullptr) cur = cur->ch[1];
@@ -50,6 +51,7 @@ BSTNode* BST::pre(BSTNode* x) {
 }
 
 BSTNode* BST::suf(BSTNode* x) {
+  splay(x);
   BSTNode* cur = x->ch[1];
   if (cur == nullptr) return nullptr;
   while (cur->ch[0] != nullptr) cur = cur->ch[0];
-- 
2.43.0


From 9de6b60ceb35c4ecc07b705aa806c4789d305c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:58 +0000
Subject: [PATCH 46/67] fix: Tree LCA does not look up ancestors above the root

---
 src/graph/Tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/Tree.cpp b/src/graph/Tree.cpp
index 8741b26..3481abb 100644
--- a/src/graph/Tree.cpp
+++ b/src/graph/Tree.cpp
@@ -43,7 +43,7 @@ Node* Tree::LCA(Node* x, Node* y) {
     x = x->getAncestor(hx - hy);
   if (x == y) return x;
   for (int i = x->ancestor.size() - 1; i >= 0; i--) {
-    if (x->ancestor[i] != y->ancestor[i]) {
+    if (i < (int)x->ancestor.size() && x->ancestor[i] != y->ancestor[i]) {
       x = x->ancestor[i], y = y->ancestor[i];
     }
   }
-- 
2.43.0


From 145111a4a4c86d53d50177861b4caa0fa9caa035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:59 +0000
Subject: [PATCH 47/67] fix: Vertex self-assignment keeps its edges

---
 src/graph/Vertex.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph/Vertex.cpp b/src/graph/Vertex.cpp
index 26e068e..af18233 100644
--- a/src/graph/Vertex.cpp
+++ b/src/graph/Vertex.cpp
@@ -46,6 +46,7 @@ Vertex::~Vertex() {
 }
 
 Vertex& Vertex::operator=(const Vertex& src) {
+  if (this == &src) return *this;
   val = src.val;
   use = src.use;
   inEdges.clear();
-- 
2.43.0


From 10787f767912a9c69ed9fa2d9820032321e391f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:46 +0000
Subject: [PATCH 48/67] fix: Trie remove of an absent word does not read past
 its table

---
 src/string_utils/Trie.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index 6fea1af..ba4358d 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -213,7 +213,7 @@ bool Trie::remove_(const std::string& word) {
   for (int i : adapter) {
     ind++;
     int next = base.get(n) + i;
-    if (check.get(next) != n) return false;
+    if (check.getWithCheck(next) != n) return false;
     n = next;
     if (base.get(n) < -1) {
       if (tail.getWithCheck(-base.get(n) - 2) == word.substr(ind)) {
-- 
2.43.0


From 52af0915520be6e15bbae8b2e70fab25fa398f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:52 +0000
Subject: [PATCH 49/67] fix: Trie iteration visits every word

---
 src/string_utils/Trie.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index ba4358d..bad05dc 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -95,11 +95,11 @@ bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
     *n = next;
     return visit(n, offset, buffer);
   }
-  if (buffer->size() == 1 || buffer->empty()) {
+  if (buffer->empty()) {
     return false;
   } else {
-    buffer->pop_back();
     *offset = buffer->back() + 1;
+    buffer->pop_back();
     *n = check.getWithCheck(*n);
     return visit(n, offset, buffer);
   }
-- 
2.43.0


From 63662ed16f239900dc8a234798fd70bed44cc945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:58 +0000
Subject: [PATCH 50/67] fix: Tries with different alphabets do not share the
 character mapping

---
 src/include/string_utils/Trie.h | 22 +++++++++++++---------
 src/string_utils/Trie.cpp       | 12 ++++--------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/include/string_utils/Trie.h b/src/include/string_utils/Trie.h
index 9a38c85..eb3c56d 100644
--- a/src/include/string_utils/Trie.h
+++ b/src/include/string_utils/Trie.h
@@ -155,23 +155,26 @@ class Trie {
   /// \cond NODOC
   class StringAdapter {
    public:
-    explicit StringAdapter(const std::string& str) : underlying(str) {}
-    static int (*mapChar)(char);
+    StringAdapter(const std::string& str, int (*mapChar)(char))
+        : underlying(str), mapChar(mapChar) {}
 
    private:
     const std::string& underlying;
+    int (*mapChar)(char);
 
    public:
     class iterator : public std::iterator<std::input_iterator_tag, const int> {
      public:
-      explicit iterator(const std::string* str) : iterator(str, 0) {}
-      iterator(const std::string* str, std::size_t index)
-          : index_(index), str_(str) {}
-      iterator(const iterator& iter) : index_(iter.index_), str_(iter.str_) {}
+      iterator(const std::string* str, int (*mapChar)(char))
+          : iterator(str, mapChar, 0) {}
+      iterator(const std::string* str, int (*mapChar)(char), std::size_t index)
+          : index_(index), str_(str), mapChar_(mapChar) {}
+      iterator(const iterator& iter)
+          : index_(iter.index_), str_(iter.str_), mapChar_(iter.mapChar_) {}
 
       int operator*() const {
         auto ch = (*str_)[index_];
-        return mapChar(ch);
+        return mapChar_(ch);
       }
 
       iterator& operator++() {
@@ -188,9 +191,10 @@ class Trie {
      private:
       std::size_t index_;
       const std::string* str_;
+      int (*mapChar_)(char);
     };
-    iterator begin() { return iterator(&underlying); }
-    iterator end() { return iterator(&underlying, underlying.size()); }
+    iterator begin() { return iterator(&underlying, mapChar); }
+    iterator end() { return iterator(&underlying, mapChar, underlying.size()); }
   };
   /// \endcond
  public:
diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index bad05dc..ed53e03 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -49,21 +49,17 @@ std::string commonPrefix(const std::string& string1,
 }
 }  // namespace
 
-// Used to fix undefined symbols error
-int (*Trie::StringAdapter::mapChar)(char) = nullptr;
-
 Trie::Trie(int (*mapChar)(char), char (*mapInt)(int)) {
   base.set(0, 0);
   pos = 0;
   this->mapChar = mapChar;
   this->mapInt = mapInt;
-  StringAdapter::mapChar = mapChar;
   size_ = 0;
 }
 
 bool Trie::retrieve(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
@@ -107,7 +103,7 @@ bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
 
 void Trie::insert_(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
@@ -121,7 +117,7 @@ void Trie::insert_(const std::string& word) {
       auto prefix = commonPrefix(word.substr(ind), tail_temp);
       int prefix_length = prefix.size();
 
-      for (int j : StringAdapter(prefix)) {
+      for (int j : StringAdapter(prefix, mapChar)) {
         int available = checkAvailable(j);
         base.set(next, available);
         check.set(available + j, next);
@@ -208,7 +204,7 @@ void Trie::insert_(const std::string& word) {
 
 bool Trie::remove_(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
-- 
2.43.0


From 86095f13d7f9717e2ce36ec91d6c650fea21dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:04 +0000
Subject: [PATCH 51/67] fix: Trie supports alphabets of more than 26 characters

---
 src/include/string_utils/Trie.h | 1 +
 src/string_utils/Trie.cpp       | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/string_utils/Trie.h b/src/include/string_utils/Trie.h
index eb3c56d..214e6e7 100644
--- a/src/include/string_utils/Trie.h
+++ b/src/include/string_utils/Trie.h
@@ -135,6 +135,7 @@ class Trie {
   private_::AutoArray<std::string, 0> tail{""};
   int pos;
   static constexpr char endChar = '\001';
+  static constexpr int maxCode = 256;  // every char has a code at most
   int (*mapChar)(char);
   char (*mapInt)(int);
   std::queue<int> tailList;
diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index ed53e03..89dad21 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -73,7 +73,7 @@ bool Trie::retrieve(const std::string& word) {
 }
 
 bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
-  for (; *offset < 28; (*offset)++) {
+  for (; *offset <= maxCode; (*offset)++) {
     int next = base.getWithCheck(*n) + *offset;
     if (check.getWithCheck(next) != *n) continue;
     buffer->push_back(*offset);
@@ -254,7 +254,7 @@ inline int Trie::checkAvailable(int i) {
 inline std::vector<int> Trie::outArcs(int n) {
   std::vector<int> rtn;
   int base_n = base.get(n);
-  for (int i = 1; i < 28; i++) {
+  for (int i = 1; i <= maxCode; i++) {
     if (check.getWithCheck(base_n + i) == n) rtn.push_back(i);
   }
   return rtn;
-- 
2.43.0


From 6865fb4920bd9e733018557bc1a07c6063cb4195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:13 +0000
Subject: [PATCH 52/67] fix: BinomialDistribution does not overflow for many
 trials

---
 src/random/BinomialDistribution.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/random/BinomialDistribution.cpp b/src/random/BinomialDistribution.cpp
index db9727a..a232beb 100644
--- a/src/random/BinomialDistribution.cpp
+++ b/src/random/BinomialDistribution.cpp
@@ -1,7 +1,6 @@
 #include "random/BinomialDistribution.h"
 
 #include <cmath>
-#include "math_utils/math_functions.h"
 #include "utils/error.h"
 
 namespace cuhksz {
@@ -15,10 +14,14 @@ void BinomialDistribution::init(int n, double p) {
   // generate probability lookup table
   lookup_table.reset(new double[n_ + 1]);
   double threshold = 0;
+  // the combination number itself does not fit `int` for large `n`
+  double log_combination = 0;
   double p_complement = 1 - p_;
   for (int i = 0; i < n_; i++) {
-    threshold +=
-        binomial(n_, i) * std::pow(p_, i) * std::pow(p_complement, n_ - i);
+    double log_probability = log_combination + (n_ - i) * std::log(p_complement);
+    if (i > 0) log_probability += i * std::log(p_);
+    threshold += std::exp(log_probability);
+    log_combination += std::log((n_ - i) / (i + 1.0));
     lookup_table[i] = threshold;
   }
   lookup_table[n_] = 1;
-- 
2.43.0


From c00e7f5f4af29734577856eb81c16998d17cb4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:15 +0000
Subject: [PATCH 53/67] fix: PoissonDistribution terminates for large lambda

---
 src/include/random/PoissonDistribution.h |  1 +
 src/random/PoissonDistribution.cpp       | 27 +++++++++++++++---------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/include/random/PoissonDistribution.h b/src/include/random/PoissonDistribution.h
index 26a6e82..684fcee 100644
--- a/src/include/random/PoissonDistribution.h
+++ b/src/include/random/PoissonDistribution.h
@@ -52,6 +52,7 @@ class PoissonDistribution : public Distribution<int> {
 
  private:
   double lambda_;
+  int parts;
   double expLambda;
 
   void init(double lambda);
diff --git a/src/random/PoissonDistribution.cpp b/src/random/PoissonDistribution.cpp
index a1c518a..2ab69fb 100644
--- a/src/random/PoissonDistribution.cpp
+++ b/src/random/PoissonDistribution.cpp
@@ -9,19 +9,26 @@ void PoissonDistribution::init(double lambda) {
     error("Invalid parameter for PoissonDistribution");
   }
   lambda_ = lambda;
-  expLambda = std::exp(-lambda_);
+  parts = (int)(lambda_ / 500) + 1;
+  expLambda = std::exp(-lambda_ / parts);
 }
 
 int PoissonDistribution::next() {
-  double rnd = randomGenerator->nextDouble();
-  int result = 0;
-  double probability = expLambda;
-  double threshold = expLambda;
-  while (rnd >= threshold) {
-    result += 1;
-    probability *= lambda_ / result;
-    threshold += probability;
+  // exp(-lambda) underflows for large lambda, so sample such a distribution as
+  // the sum of `parts` independent Poisson variables of mean `lambda / parts`
+  int total = 0;
+  for (int part = 0; part < parts; part++) {
+    double rnd = randomGenerator->nextDouble();
+    int result = 0;
+    double probability = expLambda;
+    double threshold = expLambda;
+    while (rnd >= threshold) {
+      result += 1;
+      probability *= lambda_ / parts / result;
+      threshold += probability;
+    }
+    total += result;
   }
-  return result;
+  return total;
 }
 }  // namespace cuhksz
-- 
2.43.0


From 3aedf13f4f000ddfbdc06174ff0603ce641c9cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:18 +0000
Subject: [PATCH 54/67] fix: NegativeBinomialDistribution terminates for many
 successes

---
 .../random/NegativeBinomialDistribution.h     |  1 +
 src/random/NegativeBinomialDistribution.cpp   | 33 ++++++++++++-------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/include/random/NegativeBinomialDistribution.h b/src/include/random/NegativeBinomialDistribution.h
index c3927f8..bbacb8f 100644
--- a/src/include/random/NegativeBinomialDistribution.h
+++ b/src/include/random/NegativeBinomialDistribution.h
@@ -68,6 +68,7 @@ class NegativeBinomialDistribution : public Distribution<int> {
   int r_;
   double p_;
 
+  int part;
   double pPowr;
 
   void init(int r, double p);
diff --git a/src/random/NegativeBinomialDistribution.cpp b/src/random/NegativeBinomialDistribution.cpp
index 6adf7e5..4efbd95 100644
--- a/src/random/NegativeBinomialDistribution.cpp
+++ b/src/random/NegativeBinomialDistribution.cpp
@@ -11,21 +11,32 @@ void NegativeBinomialDistribution::init(int r, double p) {
   }
   r_ = r;
   p_ = p;
-  pPowr = genericBinaryPow(p, r);
+  // p^r underflows for large r, so divide the successes into smaller parts
+  part = r;
+  pPowr = genericBinaryPow(p, part);
+  while (pPowr < 1e-250 && part > 1) {
+    part = (part + 1) / 2;
+    pPowr = genericBinaryPow(p, part);
+  }
 }
 
 int NegativeBinomialDistribution::next() {
-  double rnd = randomGenerator->nextDouble();
-
-  int result = 0;
+  // the sum of independent samples with `part` successes each, `r_` in total
+  int total = 0;
   double p_complement = 1 - p_;
-  double probability = pPowr;
-  double threshold = pPowr;
-  while (rnd >= threshold) {
-    result += 1;
-    probability *= p_complement * (r_ + result - 1) / result;
-    threshold += probability;
+  for (int remaining = r_; remaining > 0; remaining -= part) {
+    double rnd = randomGenerator->nextDouble();
+    int r = remaining < part ? remaining : part;
+    int result = 0;
+    double probability = r == part ? pPowr : genericBinaryPow(p_, r);
+    double threshold = probability;
+    while (rnd >= threshold) {
+      result += 1;
+      probability *= p_complement * (r + result - 1) / result;
+      threshold += probability;
+    }
+    total += result;
   }
-  return result;
+  return total;
 }
 }  // namespace cuhksz
-- 
2.43.0


From 3aa60b92146293173d7773e92a1f15f45063f69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:19 +0000
Subject: [PATCH 55/67] fix: ExponentialDistribution rejects a zero rate

---
 src/random/GammaDistribution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/GammaDistribution.cpp b/src/random/GammaDistribution.cpp
index cb91dd2..989a0af 100644
--- a/src/random/GammaDistribution.cpp
+++ b/src/random/GammaDistribution.cpp
@@ -9,7 +9,7 @@
 
 namespace cuhksz {
 void GammaDistribution::init(double k, double theta) {
-  if (k <= 0 || theta <= 0) {
+  if (k <= 0 || theta <= 0 || std::isinf(theta)) {
     error("Invalid parameter(s) for GammaDistribution");
   }
   k_ = k;
-- 
2.43.0


From 7c6fd84ea2a69c5d4816096450da68c796c7889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:11 +0000
Subject: [PATCH 56/67] fix: loadJSON rejects text after the value

---
 src/json/Json.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 1fafce9..fbc3d06 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -491,6 +491,12 @@ JSONObject JSONObject::Object() {
 
 JSONObject loadJSON(const std::string &str) {
   size_t offset = 0;
-  return parse_next(str, offset);
+  JSONObject ret = parse_next(str, offset);
+  skip_whitespaces(str, offset);
+  if (offset < str.length()) {
+    error("Parse: unexpected text after the value '" + str.substr(offset) +
+          "'");
+  }
+  return ret;
 }
 }  // namespace cuhksz
-- 
2.43.0


From 960b8d74c63fbf1a67bd40c3c8b8049d62543ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:33 +0000
Subject: [PATCH 57/67] fix: loadJSON rejects numbers with a misplaced sign, a
 second point or no digit

---
 src/json/Json.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index fbc3d06..2c0dec5 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -162,9 +162,9 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
   bool isDouble = false;
   while (true) {
     c = str[offset++];
-    if ((c == '-') || (c >= '0' && c <= '9')) {
+    if ((c == '-' && val.empty()) || (c >= '0' && c <= '9')) {
       val += c;
-    } else if (c == '.') {
+    } else if (c == '.' && !isDouble) {
       val += c;
       isDouble = true;
     } else {
@@ -172,6 +172,9 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
     }
   }
   --offset;
+  if (val.find_first_of("0123456789") == std::string::npos) {
+    error("Number: Expected a digit, found '" + std::string(1, c) + "'");
+  }
   if (c == 'E' || c == 'e') {
     if (++offset == str.length()) {
       error("Number: Expected a number for exponent, nothing remaining.");
-- 
2.43.0


From 43fd780cd8ecb4fe6c1435e292fa518a1b0e8920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:35 +0000
Subject: [PATCH 58/67] fix: JSONObject::dump keeps the value of floats that
 six decimals cannot express

---
 src/json/Json.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 2c0dec5..4974c10 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -1,5 +1,7 @@
 #include "json/Json.h"
 
+#include <cstdio>
+#include <cstdlib>
 #include <deque>
 #include <map>
 #include <string>
@@ -469,8 +471,15 @@ std::string JSONObject::dump(int depth, std::string tab) const {
     }
     case Type::String:
       return "\"" + jsonEscape(*Data.String) + "\"";
-    case Type::Float:
-      return std::to_string(Data.Float);
+    case Type::Float: {
+      std::string s = std::to_string(Data.Float);
+      if (std::strtod(s.c_str(), nullptr) != Data.Float) {
+        char exact[32];
+        std::snprintf(exact, sizeof(exact), "%.17g", Data.Float);
+        s = exact;
+      }
+      return s;
+    }
     case Type::Integral:
       return std::to_string(Data.Int);
     case Type::Boolean:
-- 
2.43.0


From 51acfeba966c680fb304133cb49febc9501cbc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:24 +0000
Subject: [PATCH 59/67] fix: JSONObject::setType leaves a null value when its
 allocation fails

---
 src/json/Json.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 4974c10..7e2e68a 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -283,6 +283,8 @@ void JSONObject::setType(Type type) {
   if (type == objType) return;
 
   clearData();
+  // if an allocation below fails, nothing is left to be freed again
+  objType = Type::Null;
 
   switch (type) {
     case Type::Null:
-- 
2.43.0


From 975282a24d508a9a9f2cb090e7dbac50323e1514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 60/67] fix: Matrix stays destructible after clear() or a
 failed allocation, which leaked or freed its rows twice

---
 src/include/math_utils/Matrix.h | 41 +++++++++++++++++----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 252cecb..f8051c4 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -16,31 +16,21 @@ class Matrix {
  public:
   explicit Matrix(int n) : Matrix(n, n) {}
 
-  Matrix(int n, int m) : row(n), col(m) {
-    elem = new ValueType*[row];
-    for (int i = 0; i < row; i++) {
-      elem[i] = new ValueType[col]();
-    }
-  }
+  Matrix(int n, int m) : Matrix() { allocate(n, m); }
 
-  Matrix(std::vector<std::vector<int> > ini) {
-    row = ini.size();
-    col = ini[0].size();
-    elem = new ValueType*[row];
-    for (int i = 0; i < row; i++) {
-      elem[i] = new ValueType[col];
+  Matrix(std::vector<std::vector<int> > ini) : Matrix() {
+    allocate(ini.size(), ini[0].size());
+    for (int i = 0; i < row; i++)
       for (int j = 0; j < col; j++) elem[i][j] = ini[i][j];
-    }
   }
 
-  Matrix(const Matrix& src) { deepCopy(src); }
+  Matrix(const Matrix& src) : Matrix() { deepCopy(src); }
 
   ~Matrix() { clear(); }
 
   // allocation
   Matrix& operator=(const Matrix& src) {
     if (this == &src) return *this;
-    clear();
     deepCopy(src);
     return *this;
   }
@@ -119,15 +109,16 @@ class Matrix {
   void clear() {
     for (int i = 0; i < row; i++) delete[] elem[i];
     delete[] elem;
+    elem = nullptr;
+    row = col = 0;
   }
 
   void deepCopy(const Matrix& src) {
-    row = src.row, col = src.col;
-    elem = new ValueType*[row];
-    for (int i = 0; i < row; i++) {
-      elem[i] = new ValueType[col];
+    if (this == &src) return;
+    clear();
+    allocate(src.row, src.col);
+    for (int i = 0; i < row; i++)
       for (int j = 0; j < col; j++) elem[i][j] = src[i][j];
-    }
   }
 
   static Matrix idMat(int n) {
@@ -188,6 +179,16 @@ class Matrix {
   }
 
  private:
+  Matrix() : elem(nullptr), row(0), col(0) {}
+
+  // the matrix must be empty; if an allocation fails, the rows got so far are
+  // left to clear()
+  void allocate(int n, int m) {
+    elem = new ValueType*[n]();
+    row = n, col = m;
+    for (int i = 0; i < row; i++) elem[i] = new ValueType[col]();
+  }
+
   ValueType** elem;
   int row;
   int col;
-- 
2.43.0


From 28c58298109a8d465b0812add74d7ff0bcb5768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 61/67] fix: Vertex::addEdge neither leaks the edge nor leaves
 it in one list only when an allocation fails

---
 src/graph/Vertex.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/graph/Vertex.cpp b/src/graph/Vertex.cpp
index af18233..405e544 100644
--- a/src/graph/Vertex.cpp
+++ b/src/graph/Vertex.cpp
@@ -1,6 +1,7 @@
 #include "graph/Vertex.h"
 
 #include <list>
+#include <memory>
 
 #include "graph/Edge.h"
 
@@ -67,9 +68,11 @@ bool Vertex::operator!=(const Vertex& src) const { return !(*this == src); }
 bool Vertex::operator<(const Vertex& src) const { return val < src.val; }
 
 void Vertex::addEdge(Vertex& to, int val) {
-  Edge* e = new Edge(this, &to, val);
-  outEdges.push_back(e);
-  to.inEdges.push_back(e);
+  std::unique_ptr<Edge> e(new Edge(this, &to, val));
+  std::list<Edge*> in(1, e.get());
+  outEdges.push_back(e.get());
+  to.inEdges.splice(to.inEdges.end(), in);
+  e.release();
 }
 
 }  // namespace cuhksz
-- 
2.43.0


From a1709b0e10b14a83ac46274159e8dbb6c24bcf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:04 +0000
Subject: [PATCH 62/67] fix: iterate a Trie without recursion, long common
 prefixes overflowed the stack

---
 src/string_utils/Trie.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index 89dad21..2d77a3a 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -73,9 +73,19 @@ bool Trie::retrieve(const std::string& word) {
 }
 
 bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
-  for (; *offset <= maxCode; (*offset)++) {
+  while (true) {
+    if (*offset > maxCode) {
+      if (buffer->empty()) return false;
+      *offset = buffer->back() + 1;
+      buffer->pop_back();
+      *n = check.getWithCheck(*n);
+      continue;
+    }
     int next = base.getWithCheck(*n) + *offset;
-    if (check.getWithCheck(next) != *n) continue;
+    if (check.getWithCheck(next) != *n) {
+      (*offset)++;
+      continue;
+    }
     buffer->push_back(*offset);
     if (*offset == 1) {
       buffer->push_back(-1);
@@ -89,15 +99,6 @@ bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
     }
     *offset = 1;
     *n = next;
-    return visit(n, offset, buffer);
-  }
-  if (buffer->empty()) {
-    return false;
-  } else {
-    *offset = buffer->back() + 1;
-    buffer->pop_back();
-    *n = check.getWithCheck(*n);
-    return visit(n, offset, buffer);
   }
 }
 
-- 
2.43.0


From 5b95eebf6ff1aac4252ae26c993f770a4debe068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:38 +0000
Subject: [PATCH 63/67] fix: write every element of a Vector with the
 formatting of the stream

---
 src/include/containers/Vector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/containers/Vector.h b/src/include/containers/Vector.h
index 2fa4bc7..61767b0 100644
--- a/src/include/containers/Vector.h
+++ b/src/include/containers/Vector.h
@@ -388,16 +388,16 @@ void Vector<ValueType>::emptyCheck() const {
 
 template <typename ValueType>
 std::ostream& operator<<(std::ostream& os, const Vector<ValueType>& vec) {
-  std::stringstream ss;
   if (vec.size() == 0) {
     return os << "{}";
   }
   if (vec.size() == 1) {
     return os << '{' << vec.last() << '}';
   }
+  os << '{';
   std::copy(vec.begin(), --vec.end(),
-            std::ostream_iterator<ValueType>(ss, ", "));
-  return os << '{' << ss.str() << vec.last() << '}';
+            std::ostream_iterator<ValueType>(os, ", "));
+  return os << vec.last() << '}';
 }
 
 template <typename ValueType>
-- 
2.43.0


From a8045e7612a0480f4b914f371bb2441105e91a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:15 +0000
Subject: [PATCH 64/67] fix: PoissonDistribution::next ends when rounding keeps
 the total probability below the drawn value

---
 src/random/PoissonDistribution.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/random/PoissonDistribution.cpp b/src/random/PoissonDistribution.cpp
index 2ab69fb..dd5fd11 100644
--- a/src/random/PoissonDistribution.cpp
+++ b/src/random/PoissonDistribution.cpp
@@ -22,7 +22,8 @@ int PoissonDistribution::next() {
     int result = 0;
     double probability = expLambda;
     double threshold = expLambda;
-    while (rnd >= threshold) {
+    // rounding may leave the total probability below `rnd`
+    while (rnd >= threshold && threshold + probability > threshold) {
       result += 1;
       probability *= lambda_ / parts / result;
       threshold += probability;
-- 
2.43.0


From e2cd34ab8d1278b01bc0e4ebfba8cd639c3e6fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:15 +0000
Subject: [PATCH 65/67] fix: NegativeBinomialDistribution::next ends when
 rounding keeps the total probability below the drawn value

---
 src/random/NegativeBinomialDistribution.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/random/NegativeBinomialDistribution.cpp b/src/random/NegativeBinomialDistribution.cpp
index 4efbd95..b572622 100644
--- a/src/random/NegativeBinomialDistribution.cpp
+++ b/src/random/NegativeBinomialDistribution.cpp
@@ -30,7 +30,8 @@ int NegativeBinomialDistribution::next() {
     int result = 0;
     double probability = r == part ? pPowr : genericBinaryPow(p_, r);
     double threshold = probability;
-    while (rnd >= threshold) {
+    // rounding may leave the total probability below `rnd`
+    while (rnd >= threshold && threshold + probability > threshold) {
       result += 1;
       probability *= p_complement * (r + result - 1) / result;
       threshold += probability;
-- 
2.43.0


From 27b98b2f99b13be2dd0426c64db0a1d55f619915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:15 +0000
Subject: [PATCH 66/67] fix: StudentTDistribution never produces infinity or
 NaN from a zero Chi-squared sample

---
 src/random/StudentTDistribution.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/random/StudentTDistribution.cpp b/src/random/StudentTDistribution.cpp
index 74a9745..07fe899 100644
--- a/src/random/StudentTDistribution.cpp
+++ b/src/random/StudentTDistribution.cpp
@@ -1,6 +1,8 @@
 #include "random/StudentTDistribution.h"
 
+#include <algorithm>
 #include <cmath>
+#include <limits>
 
 #include "random/ChiSquaredDistribution.h"
 #include "random/NormalDistribution.h"
@@ -17,6 +19,10 @@ void StudentTDistribution::init(double r) {
 double StudentTDistribution::next() {
   NormalDistribution normal(*randomGenerator);
   ChiSquaredDistribution chi2(*randomGenerator, r_);
-  return normal.next() * std::sqrt(r_ / chi2.next());
+  double normal_value = normal.next();
+  // rounding may produce the zero that a Chi-squared variable never takes
+  double chi2_value =
+      std::max(chi2.next(), std::numeric_limits<double>::min());
+  return normal_value * std::sqrt(r_) / std::sqrt(chi2_value);
 }
 }  // namespace cuhksz
-- 
2.43.0


From da20f152552baa5eeff547607e3152674141bb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:15 +0000
Subject: [PATCH 67/67] fix: nextDouble covers ranges whose width exceeds the
 largest double

---
 src/random/Random.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/random/Random.cpp b/src/random/Random.cpp
index 1359fda..ad1b2bf 100644
--- a/src/random/Random.cpp
+++ b/src/random/Random.cpp
@@ -29,7 +29,10 @@ int Random::nextInt(int max) {
 
 double Random::nextDouble(double min, double max) {
   if (max < min) error("`max` should be larger than or equal to `min`");
-  double result = (double)randomGenerator() / int64Max * (max - min) + min;
+  double fraction = (double)randomGenerator() / int64Max;
+  double result = fraction * (max - min) + min;
+  // the width of a very wide range does not fit `double`
+  if (std::isinf(max - min)) result = fraction * max + (1 - fraction) * min;
   // rounding may reach the excluded `max`
   return result < max ? result : std::nextafter(max, min);
 }
-- 
2.43.0

