From 9b17d53efab04f5dd8c04b7cd0201986af9f923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 01/22] fix: reject out of range numbers in hext with a
 SyntaxError

std::stoi's std::out_of_range escaped ParseHext.
---
 libhext/ragel/Parser.cpp.rl   | 19 ++++++++++++++++
 libhext/ragel/hext-machine.rl |  8 +++----
 libhext/src/Parser.cpp        | 41 +++++++++++++++++++++++++----------
 libhext/src/Parser.h          |  4 ++++
 4 files changed, 57 insertions(+), 15 deletions(-)

diff --git a/libhext/ragel/Parser.cpp.rl b/libhext/ragel/Parser.cpp.rl
index b0c7523..af6863c 100644
--- a/libhext/ragel/Parser.cpp.rl
+++ b/libhext/ragel/Parser.cpp.rl
@@ -48,6 +48,8 @@
 
 #include <vector>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 #include <utility>
 #include <algorithm>
 
@@ -336,6 +338,23 @@ void Parser::validate_close_tag_or_throw(const std::string& tag_name)
   }
 }
 
+int Parser::parse_number_or_throw(const std::string& number) const
+{
+  try
+  {
+    return std::stoi(number);
+  }
+  catch( const std::out_of_range& )
+  {
+    std::stringstream error_msg;
+    error_msg << "Number out of range ";
+    auto last_digit = this->p - 1;
+    this->print_error_location(last_digit, number.size(), error_msg);
+
+    throw SyntaxError(error_msg.str());
+  }
+}
+
 void Parser::throw_unexpected() const
 {
   assert(this->p && this->p_begin_ && this->pe);
diff --git a/libhext/ragel/hext-machine.rl b/libhext/ragel/hext-machine.rl
index 9b9502f..181287d 100644
--- a/libhext/ragel/hext-machine.rl
+++ b/libhext/ragel/hext-machine.rl
@@ -70,13 +70,13 @@ nth_pattern = (
 
   ( ( ( '-'? [0-9]+ )
       >{ tk_start(); }
-      %{ tk_stop(); pv.nth = {0, std::stoi(tok)}; }
+      %{ tk_stop(); pv.nth = {0, parse_number_or_throw(tok)}; }
     )
     ( 'n'
       %{ pv.nth = {pv.nth.second, 0}; }
       ( ( ('+'|'-') [0-9]+ )
         >{ tk_start(); }
-        %{ tk_stop(); pv.nth.second = std::stoi(tok); }
+        %{ tk_stop(); pv.nth.second = parse_number_or_throw(tok); }
       )?
     )?
   )
@@ -120,14 +120,14 @@ trait = ':' (
   ( 'child-count('
     ( [0-9]+
       >{ tk_start(); }
-      %{ tk_stop(); pv.set_trait<ChildCountMatch>(std::stoi(tok)); } )
+      %{ tk_stop(); pv.set_trait<ChildCountMatch>(parse_number_or_throw(tok)); } )
     ')' )
   |
 
   ( 'attribute-count('
     ( [0-9]+
       >{ tk_start(); }
-      %{ tk_stop(); pv.set_trait<AttributeCountMatch>(std::stoi(tok)); } )
+      %{ tk_stop(); pv.set_trait<AttributeCountMatch>(parse_number_or_throw(tok)); } )
     ')' )
   |
 
diff --git a/libhext/src/Parser.cpp b/libhext/src/Parser.cpp
index b299e10..40e1b4c 100644
--- a/libhext/src/Parser.cpp
+++ b/libhext/src/Parser.cpp
@@ -51,6 +51,8 @@
 
 #include <vector>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 #include <utility>
 #include <algorithm>
 
@@ -64,7 +66,7 @@ namespace hext {
 namespace ragel {
   /// Embed the ragel state machine.
   
-#line 67 "Parser.cpp.tmp"
+#line 66 "Parser.cpp.tmp"
 static const char _hext_actions[] = {
 	0, 1, 2, 1, 3, 1, 4, 1, 
 	5, 1, 6, 1, 7, 1, 8, 1, 
@@ -1758,7 +1760,7 @@ static const int hext_error = 0;
 static const int hext_en_main = 816;
 
 
-#line 67 "Parser.cpp.rl"
+#line 69 "Parser.cpp.rl"
 
 } // namespace ragel
 
@@ -1830,12 +1832,12 @@ Rule Parser::parse()
 #endif
 #endif
   
-#line 1833 "Parser.cpp.tmp"
+#line 1828 "Parser.cpp.tmp"
 	{
 	cs = hext_start;
 	}
 
-#line 1838 "Parser.cpp.tmp"
+#line 1831 "Parser.cpp.tmp"
 	{
 	int _klen;
 	unsigned int _trans;
@@ -1971,7 +1973,7 @@ _match:
 	break;
 	case 15:
 #line 73 "hext-machine.rl"
-	{ tk_stop(); pv.nth = {0, std::stoi(tok)}; }
+	{ tk_stop(); pv.nth = {0, parse_number_or_throw(tok)}; }
 	break;
 	case 16:
 #line 76 "hext-machine.rl"
@@ -1983,7 +1985,7 @@ _match:
 	break;
 	case 18:
 #line 79 "hext-machine.rl"
-	{ tk_stop(); pv.nth.second = std::stoi(tok); }
+	{ tk_stop(); pv.nth.second = parse_number_or_throw(tok); }
 	break;
 	case 19:
 #line 88 "hext-machine.rl"
@@ -2043,7 +2045,7 @@ _match:
 	break;
 	case 31:
 #line 123 "hext-machine.rl"
-	{ tk_stop(); pv.set_trait<ChildCountMatch>(std::stoi(tok)); }
+	{ tk_stop(); pv.set_trait<ChildCountMatch>(parse_number_or_throw(tok)); }
 	break;
 	case 32:
 #line 129 "hext-machine.rl"
@@ -2051,7 +2053,7 @@ _match:
 	break;
 	case 33:
 #line 130 "hext-machine.rl"
-	{ tk_stop(); pv.set_trait<AttributeCountMatch>(std::stoi(tok)); }
+	{ tk_stop(); pv.set_trait<AttributeCountMatch>(parse_number_or_throw(tok)); }
 	break;
 	case 34:
 #line 135 "hext-machine.rl"
@@ -2283,7 +2285,7 @@ _match:
 #line 360 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2286 "Parser.cpp.tmp"
+#line 2189 "Parser.cpp.tmp"
 		}
 	}
 
@@ -2315,7 +2317,7 @@ _again:
 #line 360 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2318 "Parser.cpp.tmp"
+#line 2216 "Parser.cpp.tmp"
 		}
 	}
 	}
@@ -2323,7 +2325,7 @@ _again:
 	_out: {}
 	}
 
-#line 142 "Parser.cpp.rl"
+#line 144 "Parser.cpp.rl"
 
 #ifndef _MSC_VER
 #pragma GCC diagnostic pop
@@ -2521,6 +2523,23 @@ void Parser::validate_close_tag_or_throw(const std::string& tag_name)
   }
 }
 
+int Parser::parse_number_or_throw(const std::string& number) const
+{
+  try
+  {
+    return std::stoi(number);
+  }
+  catch( const std::out_of_range& )
+  {
+    std::stringstream error_msg;
+    error_msg << "Number out of range ";
+    auto last_digit = this->p - 1;
+    this->print_error_location(last_digit, number.size(), error_msg);
+
+    throw SyntaxError(error_msg.str());
+  }
+}
+
 void Parser::throw_unexpected() const
 {
   assert(this->p && this->p_begin_ && this->pe);
diff --git a/libhext/src/Parser.h b/libhext/src/Parser.h
index c44f4fc..a730fb7 100644
--- a/libhext/src/Parser.h
+++ b/libhext/src/Parser.h
@@ -93,6 +93,10 @@ private:
   /// does not equal the tag from the top most rule.
   void validate_close_tag_or_throw(const std::string& tag_name);
 
+  /// Returns the value of a decimal number. Throws SyntaxError with an error
+  /// message marking the number if it cannot be represented as an int.
+  int parse_number_or_throw(const std::string& number) const;
+
   /// Throws SyntaxError with an error message marking an unexpected character.
   [[noreturn]]
   void throw_unexpected() const;
-- 
2.43.0


From 6f2637a55495168fe2fe4603ff26104ddebb42fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 02/22] fix: do not carry regex flags over to later regular
 expressions

---
 libhext/ragel/hext-machine.rl |   2 +
 libhext/src/Parser.cpp        | 136 +++++++++++++++++-----------------
 2 files changed, 71 insertions(+), 67 deletions(-)

diff --git a/libhext/ragel/hext-machine.rl b/libhext/ragel/hext-machine.rl
index 181287d..31f16db 100644
--- a/libhext/ragel/hext-machine.rl
+++ b/libhext/ragel/hext-machine.rl
@@ -101,6 +101,8 @@ regex = (
 )*
 %{ try {
      pv.regex = boost::regex(tok, pv.regex_flag);
+     // Flags apply to this regex only.
+     pv.regex_flag = boost::regex::perl;
    }
    catch( const boost::regex_error& e ) {
      // Mark whole regex as error, including slashes and flags
diff --git a/libhext/src/Parser.cpp b/libhext/src/Parser.cpp
index 40e1b4c..8f9df47 100644
--- a/libhext/src/Parser.cpp
+++ b/libhext/src/Parser.cpp
@@ -2023,6 +2023,8 @@ _match:
 #line 102 "hext-machine.rl"
 	{ try {
      pv.regex = boost::regex(tok, pv.regex_flag);
+     // Flags apply to this regex only.
+     pv.regex_flag = boost::regex::perl;
    }
    catch( const boost::regex_error& e ) {
      // Mark whole regex as error, including slashes and flags
@@ -2032,179 +2034,179 @@ _match:
 }
 	break;
 	case 28:
-#line 112 "hext-machine.rl"
+#line 114 "hext-machine.rl"
 	{ assert(pv.regex); pv.set_test<RegexTest>(*pv.regex); }
 	break;
 	case 29:
-#line 117 "hext-machine.rl"
+#line 119 "hext-machine.rl"
 	{ pv.set_trait<ChildCountMatch>(0); }
 	break;
 	case 30:
-#line 122 "hext-machine.rl"
+#line 124 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 31:
-#line 123 "hext-machine.rl"
+#line 125 "hext-machine.rl"
 	{ tk_stop(); pv.set_trait<ChildCountMatch>(parse_number_or_throw(tok)); }
 	break;
 	case 32:
-#line 129 "hext-machine.rl"
+#line 131 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 33:
-#line 130 "hext-machine.rl"
+#line 132 "hext-machine.rl"
 	{ tk_stop(); pv.set_trait<AttributeCountMatch>(parse_number_or_throw(tok)); }
 	break;
 	case 34:
-#line 135 "hext-machine.rl"
+#line 137 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth); }
 	break;
 	case 35:
-#line 139 "hext-machine.rl"
+#line 141 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth, NthChildMatch::Last); }
 	break;
 	case 36:
-#line 143 "hext-machine.rl"
+#line 145 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth, NthChildMatch::First|NthChildMatch::OfType); }
 	break;
 	case 37:
-#line 147 "hext-machine.rl"
+#line 149 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1); }
 	break;
 	case 38:
-#line 151 "hext-machine.rl"
+#line 153 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1, NthChildMatch::First|NthChildMatch::OfType); }
 	break;
 	case 39:
-#line 155 "hext-machine.rl"
+#line 157 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1, NthChildMatch::Last); }
 	break;
 	case 40:
-#line 159 "hext-machine.rl"
+#line 161 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1, NthChildMatch::Last|NthChildMatch::OfType); }
 	break;
 	case 41:
-#line 163 "hext-machine.rl"
+#line 165 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth, NthChildMatch::Last|NthChildMatch::OfType); }
 	break;
 	case 42:
-#line 166 "hext-machine.rl"
+#line 168 "hext-machine.rl"
 	{ pv.set_trait<OnlyChildMatch>(); }
 	break;
 	case 43:
-#line 169 "hext-machine.rl"
+#line 171 "hext-machine.rl"
 	{ pv.set_trait<OnlyChildMatch>(OnlyChildMatch::OfType); }
 	break;
 	case 44:
-#line 173 "hext-machine.rl"
+#line 175 "hext-machine.rl"
 	{ pv.set_trait<TypeRegexMatch>(*pv.regex); }
 	break;
 	case 45:
-#line 177 "hext-machine.rl"
+#line 179 "hext-machine.rl"
 	{ pv.negate = std::make_unique<NegateMatch>(); }
 	break;
 	case 46:
-#line 180 "hext-machine.rl"
+#line 182 "hext-machine.rl"
 	{
        assert(pv.negate);
        pv.negate->append_match(std::move(pv.trait));
      }
 	break;
 	case 47:
-#line 191 "hext-machine.rl"
+#line 193 "hext-machine.rl"
 	{ pv.builtin = TextBuiltin; }
 	break;
 	case 48:
-#line 193 "hext-machine.rl"
+#line 195 "hext-machine.rl"
 	{ pv.builtin = InnerHtmlBuiltin; }
 	break;
 	case 49:
-#line 195 "hext-machine.rl"
+#line 197 "hext-machine.rl"
 	{ pv.builtin = StripTagsBuiltin; }
 	break;
 	case 50:
-#line 203 "hext-machine.rl"
+#line 205 "hext-machine.rl"
 	{ pv.add_pipe<TrimPipe>(); }
 	break;
 	case 51:
-#line 205 "hext-machine.rl"
+#line 207 "hext-machine.rl"
 	{ pv.add_pipe<TrimPipe>(pv.literal_value); }
 	break;
 	case 52:
-#line 207 "hext-machine.rl"
+#line 209 "hext-machine.rl"
 	{ pv.add_pipe<CollapseWsPipe>(); }
 	break;
 	case 53:
-#line 209 "hext-machine.rl"
+#line 211 "hext-machine.rl"
 	{ pv.add_pipe<CasePipe>(); }
 	break;
 	case 54:
-#line 211 "hext-machine.rl"
+#line 213 "hext-machine.rl"
 	{ pv.add_pipe<CasePipe>(CasePipe::ToUpper); }
 	break;
 	case 55:
-#line 213 "hext-machine.rl"
+#line 215 "hext-machine.rl"
 	{ pv.add_pipe<PrependPipe>(pv.literal_value); }
 	break;
 	case 56:
-#line 215 "hext-machine.rl"
+#line 217 "hext-machine.rl"
 	{ pv.add_pipe<AppendPipe>(pv.literal_value); }
 	break;
 	case 57:
-#line 217 "hext-machine.rl"
+#line 219 "hext-machine.rl"
 	{ pv.add_pipe<RegexPipe>(*pv.regex); }
 	break;
 	case 58:
-#line 220 "hext-machine.rl"
+#line 222 "hext-machine.rl"
 	{ pv.add_pipe<RegexReplacePipe>(*pv.regex, pv.literal_value); }
 	break;
 	case 59:
-#line 226 "hext-machine.rl"
+#line 228 "hext-machine.rl"
 	{ pv.cap_var = pv.literal_value; }
 	break;
 	case 60:
-#line 228 "hext-machine.rl"
+#line 230 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 61:
-#line 229 "hext-machine.rl"
+#line 231 "hext-machine.rl"
 	{ tk_stop(); pv.cap_var = tok; }
 	break;
 	case 62:
-#line 236 "hext-machine.rl"
+#line 238 "hext-machine.rl"
 	{ pv.set_test<ContainsWordsTest>(pv.literal_value); }
 	break;
 	case 63:
-#line 239 "hext-machine.rl"
+#line 241 "hext-machine.rl"
 	{ pv.set_test<EqualsTest>(pv.literal_value); }
 	break;
 	case 64:
-#line 242 "hext-machine.rl"
+#line 244 "hext-machine.rl"
 	{ pv.set_test<BeginsWithTest>(pv.literal_value); }
 	break;
 	case 65:
-#line 245 "hext-machine.rl"
+#line 247 "hext-machine.rl"
 	{ pv.set_test<ContainsTest>(pv.literal_value); }
 	break;
 	case 66:
-#line 248 "hext-machine.rl"
+#line 250 "hext-machine.rl"
 	{ pv.set_test<EndsWithTest>(pv.literal_value); }
 	break;
 	case 67:
-#line 256 "hext-machine.rl"
+#line 258 "hext-machine.rl"
 	{ cur_rule().append_capture<FunctionCapture>(
              pv.builtin, pv.cap_var, std::move(pv.pipe)); }
 	break;
 	case 68:
-#line 261 "hext-machine.rl"
+#line 263 "hext-machine.rl"
 	{ cur_rule().append_match<FunctionValueMatch>(pv.builtin, std::move(pv.test)); }
 	break;
 	case 69:
-#line 265 "hext-machine.rl"
+#line 267 "hext-machine.rl"
 	{ cur_rule().append_match<FunctionValueMatch>(pv.builtin, std::move(pv.test)); }
 	break;
 	case 70:
-#line 269 "hext-machine.rl"
+#line 271 "hext-machine.rl"
 	{ cur_rule().append_capture<AttributeCapture>(
              pv.attr_name, pv.cap_var, std::move(pv.pipe));
          if( !pv.optional )
@@ -2212,80 +2214,80 @@ _match:
        }
 	break;
 	case 71:
-#line 277 "hext-machine.rl"
+#line 279 "hext-machine.rl"
 	{ cur_rule().append_match<AttributeMatch>(pv.attr_name, std::move(pv.test)); }
 	break;
 	case 72:
-#line 281 "hext-machine.rl"
+#line 283 "hext-machine.rl"
 	{ cur_rule().append_match<AttributeMatch>(pv.attr_name, std::move(pv.test)); }
 	break;
 	case 73:
-#line 285 "hext-machine.rl"
+#line 287 "hext-machine.rl"
 	{ pv.test = nullptr; }
 	break;
 	case 74:
-#line 288 "hext-machine.rl"
+#line 290 "hext-machine.rl"
 	{ cur_rule().append_match<AttributeMatch>(pv.attr_name, std::move(pv.test)); }
 	break;
 	case 75:
-#line 289 "hext-machine.rl"
+#line 291 "hext-machine.rl"
 	{ pv.reset(); }
 	break;
 	case 76:
-#line 299 "hext-machine.rl"
+#line 301 "hext-machine.rl"
 	{ push_rule(); }
 	break;
 	case 77:
-#line 304 "hext-machine.rl"
+#line 306 "hext-machine.rl"
 	{ cur_rule().set_optional(true); }
 	break;
 	case 78:
-#line 308 "hext-machine.rl"
+#line 310 "hext-machine.rl"
 	{ cur_rule().set_greedy(true); }
 	break;
 	case 79:
-#line 312 "hext-machine.rl"
+#line 314 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 80:
-#line 313 "hext-machine.rl"
+#line 315 "hext-machine.rl"
 	{ tk_stop(); set_open_tag_or_throw(tok); }
 	break;
 	case 81:
-#line 316 "hext-machine.rl"
+#line 318 "hext-machine.rl"
 	{ cur_rule().append_match(std::move(pv.negate)); }
 	break;
 	case 82:
-#line 319 "hext-machine.rl"
+#line 321 "hext-machine.rl"
 	{ cur_rule().append_match(std::move(pv.trait)); }
 	break;
 	case 83:
-#line 327 "hext-machine.rl"
+#line 329 "hext-machine.rl"
 	{ pop_rule(); }
 	break;
 	case 84:
-#line 334 "hext-machine.rl"
+#line 336 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 85:
-#line 335 "hext-machine.rl"
+#line 337 "hext-machine.rl"
 	{ tk_stop();
                             validate_close_tag_or_throw(tok);
                             pop_rule(); }
 	break;
 	case 86:
-#line 352 "hext-machine.rl"
+#line 354 "hext-machine.rl"
 	{ push_nested(); }
 	break;
 	case 87:
-#line 356 "hext-machine.rl"
+#line 358 "hext-machine.rl"
 	{ pop_nested(); }
 	break;
 	case 88:
-#line 360 "hext-machine.rl"
+#line 362 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2189 "Parser.cpp.tmp"
+#line 2191 "Parser.cpp.tmp"
 		}
 	}
 
@@ -2302,22 +2304,22 @@ _again:
 	while ( __nacts-- > 0 ) {
 		switch ( *__acts++ ) {
 	case 83:
-#line 327 "hext-machine.rl"
+#line 329 "hext-machine.rl"
 	{ pop_rule(); }
 	break;
 	case 86:
-#line 352 "hext-machine.rl"
+#line 354 "hext-machine.rl"
 	{ push_nested(); }
 	break;
 	case 87:
-#line 356 "hext-machine.rl"
+#line 358 "hext-machine.rl"
 	{ pop_nested(); }
 	break;
 	case 88:
-#line 360 "hext-machine.rl"
+#line 362 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2216 "Parser.cpp.tmp"
+#line 2218 "Parser.cpp.tmp"
 		}
 	}
 	}
-- 
2.43.0


From fb9c9b742f8e42ac9ce14d0763e7f55095ba600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 03/22] fix: avoid integer overflow in NthChildMatch

---
 libhext/src/NthChildMatch.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libhext/src/NthChildMatch.cpp b/libhext/src/NthChildMatch.cpp
index 6c266e8..8e59223 100644
--- a/libhext/src/NthChildMatch.cpp
+++ b/libhext/src/NthChildMatch.cpp
@@ -15,6 +15,7 @@
 #include "hext/NthChildMatch.h"
 
 #include <cassert>
+#include <cstdint>
 
 
 namespace hext {
@@ -47,7 +48,9 @@ bool NthChildMatch::matches(const GumboNode * node) const noexcept
   if( this->options_ & Option::OfType )
     count_tag = static_cast<HtmlTag>(node->v.element.tag);
 
-  int node_pos = 0;
+  // Calculate in 64 bits, because node_pos - shift, shift - node_pos and -step
+  // may not be representable as an int.
+  std::int64_t node_pos = 0;
   if( this->options_ & Option::First )
     node_pos = this->count_preceding_siblings(node, count_tag);
   else
@@ -76,7 +79,7 @@ bool NthChildMatch::matches(const GumboNode * node) const noexcept
     if( node_pos > this->shift_ )
       return false;
 
-    return ( this->shift_ - node_pos ) % ( -1 * this->step_ ) == 0;
+    return ( this->shift_ - node_pos ) % ( -1 * std::int64_t{this->step_} ) == 0;
   }
 }
 
-- 
2.43.0


From affcfa5f50d912ad1912f4d1ba5498b463aaa624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 04/22] fix: release a moved Html's document exactly once

---
 libhext/include/hext/Html.h |  4 ++--
 libhext/src/Html.cpp        | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/libhext/include/hext/Html.h b/libhext/include/hext/Html.h
index bbee510..c71e201 100644
--- a/libhext/include/hext/Html.h
+++ b/libhext/include/hext/Html.h
@@ -64,8 +64,8 @@ public:
   Html(const char * buffer, std::size_t size) noexcept;
 
   ~Html() noexcept;
-  Html(Html&&) noexcept = default;
-  Html& operator=(Html&&) noexcept = default;
+  Html(Html&& other) noexcept;
+  Html& operator=(Html&& other) noexcept;
 
   /// Returns a non-owning pointer to the root node of the HTML document.
   ///
diff --git a/libhext/src/Html.cpp b/libhext/src/Html.cpp
index 553ce7c..ec73541 100644
--- a/libhext/src/Html.cpp
+++ b/libhext/src/Html.cpp
@@ -15,6 +15,7 @@
 #include "hext/Html.h"
 
 #include <cstring>
+#include <utility>
 
 
 namespace hext {
@@ -42,6 +43,23 @@ Html::~Html() noexcept
     gumbo_destroy_output(&kGumboDefaultOptions, this->g_outp_);
 }
 
+Html::Html(Html&& other) noexcept
+: g_outp_(std::exchange(other.g_outp_, nullptr))
+{
+}
+
+Html& Html::operator=(Html&& other) noexcept
+{
+  if( this != &other )
+  {
+    if( this->g_outp_ )
+      gumbo_destroy_output(&kGumboDefaultOptions, this->g_outp_);
+    this->g_outp_ = std::exchange(other.g_outp_, nullptr);
+  }
+
+  return *this;
+}
+
 const GumboNode * Html::root() const noexcept
 {
   return this->g_outp_ ? this->g_outp_->root : nullptr;
-- 
2.43.0


From adb4ba70925c3469b4c0050b5b51f10cb131b31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 05/22] fix: allow assigning captures that have no pipe

---
 libhext/src/AttributeCapture.cpp | 2 +-
 libhext/src/FunctionCapture.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhext/src/AttributeCapture.cpp b/libhext/src/AttributeCapture.cpp
index 8631433..c772099 100644
--- a/libhext/src/AttributeCapture.cpp
+++ b/libhext/src/AttributeCapture.cpp
@@ -43,7 +43,7 @@ AttributeCapture& AttributeCapture::operator=(const AttributeCapture& other)
   {
     this->attr_name_ = other.attr_name_;
     this->name_ = other.name_;
-    this->pipe_ = other.pipe_->clone();
+    this->pipe_ = other.pipe_ ? other.pipe_->clone() : nullptr;
   }
 
   return *this;
diff --git a/libhext/src/FunctionCapture.cpp b/libhext/src/FunctionCapture.cpp
index a3b0d0b..dd60108 100644
--- a/libhext/src/FunctionCapture.cpp
+++ b/libhext/src/FunctionCapture.cpp
@@ -43,7 +43,7 @@ FunctionCapture& FunctionCapture::operator=(const FunctionCapture& other)
   {
     this->func_ = other.func_;
     this->name_ = other.name_;
-    this->pipe_ = other.pipe_->clone();
+    this->pipe_ = other.pipe_ ? other.pipe_->clone() : nullptr;
   }
 
   return *this;
-- 
2.43.0


From daaac1f5d536b7794a1fe80297b69d84cda75691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 06/22] fix: do not decrement the reference count of a null
 object in the Python binding

---
 libhext/bindings/python/pyhext.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index 813d5df..593aa0d 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -41,7 +41,7 @@ struct ScopedPyObject
   : obj(object)
   {}
 
-  ~ScopedPyObject() noexcept { Py_DECREF(this->obj); }
+  ~ScopedPyObject() noexcept { Py_XDECREF(this->obj); }
 
   PyObject * obj;
 };
-- 
2.43.0


From 2bc585d3a02723707ef33f53811cc7a825e79749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 07/22] fix: NextNode must not dereference a missing parent

---
 libhext/src/NodeUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index 5328b8e..717fd66 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -304,7 +304,7 @@ bool TagWrapsText(GumboTag tag) noexcept
 
 const GumboNode * NextNode(const GumboNode * node) noexcept
 {
-  if( !node || node->parent->type != GUMBO_NODE_ELEMENT )
+  if( !node || !node->parent || node->parent->type != GUMBO_NODE_ELEMENT )
     return nullptr;
 
   const GumboNode * parent = node->parent;
-- 
2.43.0


From 4b0f4fcc62603cebc5f9e2b8a194e9f99ff20d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 08/22] fix: distinguish custom tags in nth-of-type and
 only-of-type

---
 libhext/include/hext/NthChildMatch.h |  4 ++--
 libhext/src/NodeUtil.cpp             | 16 ++++++++++++++++
 libhext/src/NodeUtil.h               |  5 +++++
 libhext/src/NthChildMatch.cpp        |  6 ++++--
 libhext/src/OnlyChildMatch.cpp       |  7 ++++---
 5 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/libhext/include/hext/NthChildMatch.h b/libhext/include/hext/NthChildMatch.h
index 4595f86..395abd4 100644
--- a/libhext/include/hext/NthChildMatch.h
+++ b/libhext/include/hext/NthChildMatch.h
@@ -130,7 +130,7 @@ private:
   ///
   /// @param      node:  A pointer to a GumboNode.
   /// @param count_tag:  If given any value other than HtmlTag::ANY, only count
-  ///                    siblings having this HtmlTag.
+  ///                    siblings having the same tag as node.
   HEXT_PRIVATE
     int count_preceding_siblings(const GumboNode * node,
                                  HtmlTag           count_tag) const noexcept;
@@ -139,7 +139,7 @@ private:
   ///
   /// @param      node:  A pointer to a GumboNode.
   /// @param count_tag:  If given any value other than HtmlTag::ANY, only count
-  ///                    siblings having this HtmlTag.
+  ///                    siblings having the same tag as node.
   HEXT_PRIVATE
     int count_following_siblings(const GumboNode * node,
                                  HtmlTag           count_tag) const noexcept;
diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index 717fd66..6172c0c 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -302,6 +302,22 @@ bool TagWrapsText(GumboTag tag) noexcept
 }
 
 
+bool HasSameTag(const GumboElement& a, const GumboElement& b) noexcept
+{
+  if( a.tag != b.tag )
+    return false;
+
+  if( a.tag != GUMBO_TAG_UNKNOWN )
+    return true;
+
+  GumboStringPiece a_name = a.original_tag;
+  GumboStringPiece b_name = b.original_tag;
+  gumbo_tag_from_original_text(&a_name);
+  gumbo_tag_from_original_text(&b_name);
+  return gumbo_string_equals_ignore_case(&a_name, &b_name);
+}
+
+
 const GumboNode * NextNode(const GumboNode * node) noexcept
 {
   if( !node || !node->parent || node->parent->type != GUMBO_NODE_ELEMENT )
diff --git a/libhext/src/NodeUtil.h b/libhext/src/NodeUtil.h
index 709fb6d..b66e9f8 100644
--- a/libhext/src/NodeUtil.h
+++ b/libhext/src/NodeUtil.h
@@ -74,6 +74,11 @@ bool TagIsSelfClosing(GumboTag tag) noexcept;
 bool TagWrapsText(GumboTag tag) noexcept;
 
 
+/// Returns true if two HTML elements have the same tag. Custom tags are compared
+/// by name, ignoring case.
+bool HasSameTag(const GumboElement& a, const GumboElement& b) noexcept;
+
+
 /// Returns the next sibling of node.
 const GumboNode * NextNode(const GumboNode * node) noexcept;
 
diff --git a/libhext/src/NthChildMatch.cpp b/libhext/src/NthChildMatch.cpp
index 8e59223..440b1b6 100644
--- a/libhext/src/NthChildMatch.cpp
+++ b/libhext/src/NthChildMatch.cpp
@@ -14,6 +14,8 @@
 
 #include "hext/NthChildMatch.h"
 
+#include "NodeUtil.h"
+
 #include <cassert>
 #include <cstdint>
 
@@ -107,7 +109,7 @@ int NthChildMatch::count_preceding_siblings(
 
     if( child && child->type == GUMBO_NODE_ELEMENT )
       if( count_tag == HtmlTag::ANY
-          || child->v.element.tag == static_cast<GumboTag>(count_tag) )
+          || HasSameTag(child->v.element, node->v.element) )
         ++count;
 
     if( node == child )
@@ -145,7 +147,7 @@ int NthChildMatch::count_following_siblings(
     assert(child != nullptr);
     if( child && child->type == GUMBO_NODE_ELEMENT )
       if( count_tag == HtmlTag::ANY ||
-          child->v.element.tag == static_cast<GumboTag>(count_tag) )
+          HasSameTag(child->v.element, node->v.element) )
         ++count;
 
     if( node == child )
diff --git a/libhext/src/OnlyChildMatch.cpp b/libhext/src/OnlyChildMatch.cpp
index 8e4bda7..6b0ae0c 100644
--- a/libhext/src/OnlyChildMatch.cpp
+++ b/libhext/src/OnlyChildMatch.cpp
@@ -14,6 +14,8 @@
 
 #include "hext/OnlyChildMatch.h"
 
+#include "NodeUtil.h"
+
 #include <cassert>
 
 
@@ -35,15 +37,14 @@ bool OnlyChildMatch::matches(const GumboNode * node) const noexcept
   if( !parent || parent->type != GUMBO_NODE_ELEMENT )
     return false;
 
-  GumboTag count_tag = node->v.element.tag;
-
   const GumboVector& child_nodes = parent->v.element.children;
   for(unsigned int i = 0; i < child_nodes.length; ++i)
   {
     auto child = static_cast<const GumboNode *>(child_nodes.data[i]);
 
     if( child && child->type == GUMBO_NODE_ELEMENT && node != child )
-      if( !(this->options_ & OfType) || child->v.element.tag == count_tag )
+      if( !(this->options_ & OfType) ||
+          HasSameTag(child->v.element, node->v.element) )
         return false;
   }
 
-- 
2.43.0


From 15ff977c61a80da71e02251e4e6fd649b0197343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 09/22] fix: escape attribute values in @inner-html the way
 HTML does

---
 libhext/src/NodeUtil.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index 6172c0c..73848b1 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -16,7 +16,6 @@
 
 #include <cassert>
 #include <cstddef>
-#include <iomanip>
 #include <iterator>
 #include <string_view>
 
@@ -162,7 +161,19 @@ void SerializeAttribute(const GumboAttribute& a, std::ostringstream& os)
     }
     os << a.name;
     if( a.value )
-      os << '=' << std::quoted(a.value);
+    {
+      os << "=\"";
+      for(const char * c = a.value; *c; ++c)
+      {
+        if( *c == '"' )
+          os << "&quot;";
+        else if( *c == '&' )
+          os << "&amp;";
+        else
+          os << *c;
+      }
+      os << '"';
+    }
   }
 }
 
-- 
2.43.0


From 7b264aea0b374db35b0d099bf66b710a84db4f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 10/22] fix: keep matching after an optional rule without a
 match

MatchRange returned the match of the last rule only.  In a group of
optional rules, a trailing rule that matched nothing discarded the
remaining siblings.
---
 libhext/src/RuleMatching.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libhext/src/RuleMatching.cpp b/libhext/src/RuleMatching.cpp
index cf77658..32d3dae 100644
--- a/libhext/src/RuleMatching.cpp
+++ b/libhext/src/RuleMatching.cpp
@@ -277,13 +277,16 @@ const GumboNode * MatchRange(const Rule *      r_begin,
   if( !n_begin )
     return n_end;
 
-  const GumboNode * matching_node = n_end;
+  const GumboNode * last_matching_node = n_end;
   while( r_begin && r_begin != r_end )
   {
-    matching_node = MatchRuleOnce(r_begin, n_begin, n_end, result, max_searches);
+    auto matching_node =
+        MatchRuleOnce(r_begin, n_begin, n_end, result, max_searches);
     const auto has_matched = ( matching_node && matching_node != n_end );
     if( has_matched )
     {
+      // A greedy rule was matched against every node up to n_end
+      last_matching_node = r_begin->is_greedy() ? n_end : matching_node;
       result.push_back({r_begin, matching_node});
       n_begin = NextNode(matching_node);
     }
@@ -292,7 +295,7 @@ const GumboNode * MatchRange(const Rule *      r_begin,
       r_begin = r_begin->next();
   }
 
-  return matching_node;
+  return last_matching_node;
 }
 
 const Rule * FindMandatoryRule(const Rule * begin, const Rule * end)
-- 
2.43.0


From ea8ddba6d89dfd1d0d29a54f79a05edbf3873dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 11/22] fix: let leading optional rules match in front of the
 next group

After a trailing optional or greedy rule, matching continued at the next
match of the mandatory rule, skipping nodes that optional rules in front of
that mandatory rule should have matched.
---
 libhext/src/RuleMatching.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libhext/src/RuleMatching.cpp b/libhext/src/RuleMatching.cpp
index 32d3dae..7dc6df9 100644
--- a/libhext/src/RuleMatching.cpp
+++ b/libhext/src/RuleMatching.cpp
@@ -119,10 +119,16 @@ const GumboNode * MatchRuleGroup(const Rule *      rule,
           // following, or no rules, because the next mandatory rule is not
           // included in this result set.
           // Match until and excluding stop_node.
-          node = MatchRange(rule, nullptr, node, stop_node, sub, max_searches);
+          const auto sub_size = sub.size();
+          MatchRange(rule, nullptr, node, stop_node, sub, max_searches);
+
+          // Continue right after the last match: The nodes up to stop_node may
+          // be matched by optional rules that precede stop_rule.
+          if( sub.size() > sub_size )
+            node = NextNode(sub.back().second);
 
           std::move(sub.begin(), sub.end(), std::back_inserter(result));
-          return stop_node;
+          return node;
         }
         else
         {
-- 
2.43.0


From 0717a9aa62003151cfd851eea653bdd7475489f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:28 +0000
Subject: [PATCH 12/22] fix: keep NUL bytes of captured values in JSON output

rapidjson::Value(const char*, alloc) stops at the first NUL byte, so that a
value such as "a\0b" (a hext literal given to prepend, append or replace may
contain any byte) was printed as "a", and two different names that differ
only behind a NUL byte were merged.
---
 htmlext/htmlext/Json.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/htmlext/htmlext/Json.cpp b/htmlext/htmlext/Json.cpp
index ab3c672..d902d5f 100644
--- a/htmlext/htmlext/Json.cpp
+++ b/htmlext/htmlext/Json.cpp
@@ -34,8 +34,15 @@ void PrintJson(const hext::Result result, JsonOption opt, std::ostream& out)
 
     for(const auto& p : group)
     {
-      rapidjson::Value name(p.first.c_str(), alloc);
-      rapidjson::Value value(p.second.c_str(), alloc);
+      // Pass the size, the strings may contain NUL bytes
+      rapidjson::Value name(
+          p.first.data(),
+          static_cast<rapidjson::SizeType>(p.first.size()),
+          alloc);
+      rapidjson::Value value(
+          p.second.data(),
+          static_cast<rapidjson::SizeType>(p.second.size()),
+          alloc);
       // If the key is already taken, transform the value into an array
       if( obj.HasMember(name) )
       {
-- 
2.43.0


From 71616b2edf435d4948be9cfd67b65b285f6433ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:47 +0000
Subject: [PATCH 13/22] fix: parse a Hext file up to its end

A Hext file was handed to ParseHext as a C string, so that everything behind a
NUL byte was silently ignored, also by --lint.
---
 htmlext/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/htmlext/main.cpp b/htmlext/main.cpp
index c4049c3..107a0b2 100644
--- a/htmlext/main.cpp
+++ b/htmlext/main.cpp
@@ -64,8 +64,10 @@ int main(int argc, const char ** argv)
     for(const auto& filename : hext_filenames)
     {
       try {
+        // Pass the size, the file may contain NUL bytes
+        const auto hext_contents = htmlext::ReadFileOrThrow(filename);
         rules.emplace_back(
-            hext::ParseHext(htmlext::ReadFileOrThrow(filename).c_str()));
+            hext::ParseHext(hext_contents.data(), hext_contents.size()));
       } catch( const hext::SyntaxError& e ) {
         errout.print(std::string("Error in " + filename), e.what());
         return EXIT_FAILURE;
-- 
2.43.0


From b6410a9b3cb65c9efd5625ba08beb9c69c39a053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:26 +0000
Subject: [PATCH 14/22] fix: report regex errors during extraction to the
 scripting language

Applying a regular expression may throw, for example when Boost.Regex gives up
on an expression that backtracks too much. The bindings only caught
hext::MaxSearchError, so that the exception terminated the interpreter.
---
 libhext/bindings/php/phphext.i   | 3 ++-
 libhext/bindings/python/pyhext.i | 3 ++-
 libhext/bindings/ruby/rbhext.i   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/libhext/bindings/php/phphext.i b/libhext/bindings/php/phphext.i
index 52a143b..5b05846 100644
--- a/libhext/bindings/php/phphext.i
+++ b/libhext/bindings/php/phphext.i
@@ -79,8 +79,9 @@
   {
     $action
   }
-  catch(const hext::MaxSearchError& e)
+  catch(const std::exception& e)
   {
+    // hext::MaxSearchError, or an error thrown while applying a regex
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
 }
diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index 593aa0d..52d05c9 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -136,8 +136,9 @@ struct ScopedPyObject
   {
     $action
   }
-  catch(const hext::MaxSearchError& e)
+  catch(const std::exception& e)
   {
+    // hext::MaxSearchError, or an error thrown while applying a regex
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
 }
diff --git a/libhext/bindings/ruby/rbhext.i b/libhext/bindings/ruby/rbhext.i
index 4f68d3c..8f4b726 100644
--- a/libhext/bindings/ruby/rbhext.i
+++ b/libhext/bindings/ruby/rbhext.i
@@ -75,8 +75,9 @@
   {
     $action
   }
-  catch(const hext::MaxSearchError& e)
+  catch(const std::exception& e)
   {
+    // hext::MaxSearchError, or an error thrown while applying a regex
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
 }
-- 
2.43.0


From 75d11ffd2e99a7ce56eff773362f9bbd69a357a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:35 +0000
Subject: [PATCH 15/22] fix: release the result list on failure and keep NUL
 bytes in the Python binding

---
 libhext/bindings/python/pyhext.i | 51 +++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index 52d05c9..64a2840 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -47,6 +47,19 @@ struct ScopedPyObject
 };
 
 
+// Convert the whole string, which may contain NUL bytes
+PyObject * StringToPyObject(const std::string& str)
+{
+#if PY_VERSION_HEX >= 0x03000000
+  return PyUnicode_FromStringAndSize(
+      str.data(), static_cast<Py_ssize_t>(str.size()));
+#else
+  return PyString_FromStringAndSize(
+      str.data(), static_cast<Py_ssize_t>(str.size()));
+#endif
+}
+
+
 } // namespace
 
 
@@ -56,8 +69,9 @@ struct ScopedPyObject
 // Convert vector of multimaps to list of dicts
 %typemap(out) std::vector<std::multimap<std::string, std::string>>
 {
-  $result = PyList_New(0);
-  if( !$result )
+  // is released if an error occurs
+  ScopedPyObject result_list(PyList_New(0));
+  if( !result_list.obj )
     SWIG_exception(SWIG_RuntimeError, "PyList_New returned nullptr");
 
   for(const auto& map : *(&$1))
@@ -69,17 +83,20 @@ struct ScopedPyObject
     auto it = map.cbegin();
     while( it != map.cend() )
     {
+      ScopedPyObject key(StringToPyObject(it->first));
+      if( !key.obj )
+        SWIG_exception(SWIG_RuntimeError, "StringToPyObject returned nullptr");
+
       if( map.count(it->first) < 2 )
       {
-        ScopedPyObject value(PyString_FromString(it->second.c_str()));
+        ScopedPyObject value(StringToPyObject(it->second));
         if( !value.obj )
           SWIG_exception(SWIG_RuntimeError,
-              "PyString_FromString returned nullptr");
+              "StringToPyObject returned nullptr");
 
-        // does not steal a reference to value
-        if( PyDict_SetItemString(dict.obj, it->first.c_str(), value.obj) )
-          SWIG_exception(SWIG_RuntimeError,
-              "PyDict_SetItemString returned != 0");
+        // does not steal a reference to key or value
+        if( PyDict_SetItem(dict.obj, key.obj, value.obj) )
+          SWIG_exception(SWIG_RuntimeError, "PyDict_SetItem returned != 0");
 
         ++it;
       }
@@ -93,31 +110,31 @@ struct ScopedPyObject
         auto upper = map.upper_bound(it->first);
         for(; lower != upper; ++lower)
         {
-          // Swig defines PyString_FromString, which forwards to
-          // PyUnicode_FromString
-          ScopedPyObject value(PyString_FromString(lower->second.c_str()));
+          ScopedPyObject value(StringToPyObject(lower->second));
           if( !value.obj )
             SWIG_exception(SWIG_RuntimeError,
-                "PyString_FromString returned nullptr");
+                "StringToPyObject returned nullptr");
 
           // does not steal a reference to value
           if( PyList_Append(list.obj, value.obj) )
             SWIG_exception(SWIG_RuntimeError, "PyList_Append returned != 0");
         }
 
-        // does not steal a reference to list
-        if( PyDict_SetItemString(dict.obj, it->first.c_str(), list.obj) )
-          SWIG_exception(SWIG_RuntimeError,
-              "PyDict_SetItemString returned != 0");
+        // does not steal a reference to key or list
+        if( PyDict_SetItem(dict.obj, key.obj, list.obj) )
+          SWIG_exception(SWIG_RuntimeError, "PyDict_SetItem returned != 0");
 
         it = upper;
       }
     }
 
     // does not steal a reference to dict
-    if( PyList_Append($result, dict.obj) )
+    if( PyList_Append(result_list.obj, dict.obj) )
       SWIG_exception(SWIG_RuntimeError, "PyList_Append returned != 0");
   }
+
+  $result = result_list.obj;
+  result_list.obj = nullptr;
 }
 
 %include "exception.i"
-- 
2.43.0


From b851a9f9678b2f6845dd00ac7c79f87341a5c50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 16/22] fix: keep NUL bytes in the PHP binding

---
 libhext/bindings/php/phphext.i | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libhext/bindings/php/phphext.i b/libhext/bindings/php/phphext.i
index 5b05846..501810b 100644
--- a/libhext/bindings/php/phphext.i
+++ b/libhext/bindings/php/phphext.i
@@ -32,10 +32,12 @@
     {
       if( map.count(it->first) < 2 )
       {
-        add_assoc_string(
+        add_assoc_stringl_ex(
           &out_map,
           it->first.c_str(),
-          it->second.c_str()
+          it->first.size(),
+          it->second.c_str(),
+          it->second.size()
         );
         ++it;
       }
@@ -54,7 +56,12 @@
             lower->second.size()
           );
 
-        add_assoc_zval(&out_map, it->first.c_str(), &values);
+        add_assoc_zval_ex(
+          &out_map,
+          it->first.c_str(),
+          it->first.size(),
+          &values
+        );
         it = upper;
       }
     }
-- 
2.43.0


From aaa3ebfa71c3e4113266a21b7ae23f6bc2c46470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:43 +0000
Subject: [PATCH 17/22] fix: report regex errors during extraction as
 JavaScript exceptions

---
 libhext/bindings/nodejs/src/Rule.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index b950767..eb57599 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -15,11 +15,11 @@
 #include "Rule.h"
 #include "Html.h"
 
-#include <hext/MaxSearchError.h>
 #include <hext/ParseHext.h>
 #include <hext/Result.h>
 
 #include <cstdint>
+#include <exception>
 
 
 Rule::Rule(const Napi::CallbackInfo& info)
@@ -143,8 +143,10 @@ Napi::Value Rule::extract(const Napi::CallbackInfo& info)
   {
     result = this->rule_->extract(html->root(), max_searches);
   }
-  catch( const hext::MaxSearchError& e )
+  catch( const std::exception& e )
   {
+    // hext::MaxSearchError, or an error thrown while applying a regex
+
     auto message = std::string("Error: ") + e.what();
     Napi::Error::New(
         env,
-- 
2.43.0


From fc10be3bcd475df15456e7ee12375f627f965c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:43 +0000
Subject: [PATCH 18/22] fix: do not truncate max_searches in the Node binding

---
 libhext/bindings/nodejs/src/Rule.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index eb57599..b6232a0 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -95,7 +95,18 @@ Napi::Value Rule::extract(const Napi::CallbackInfo& info)
     }
     else
     {
-      max_searches = info[1].ToNumber().Uint32Value();
+      const std::int64_t value = info[1].ToNumber().Int64Value();
+      if( value < 0 )
+      {
+        Napi::TypeError::New(
+            env,
+            "Argument error: Optional argument 'max_searches' must not be "
+            "negative")
+          .ThrowAsJavaScriptException();
+        return env.Null();
+      }
+
+      max_searches = static_cast<std::uint64_t>(value);
     }
   }
 
-- 
2.43.0


From d54f4aadfadb230b01e280ab059f32c1bc2d855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:43 +0000
Subject: [PATCH 19/22] fix: parse Hext up to its end in the Node binding

---
 libhext/bindings/nodejs/src/Rule.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index b6232a0..04c5a33 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -20,6 +20,7 @@
 
 #include <cstdint>
 #include <exception>
+#include <string>
 
 
 Rule::Rule(const Napi::CallbackInfo& info)
@@ -48,8 +49,9 @@ Rule::Rule(const Napi::CallbackInfo& info)
 
   try
   {
+    const std::string hext_str = info[0].As<Napi::String>().Utf8Value();
     this->rule_ = std::make_unique<hext::Rule>(
-        hext::ParseHext(info[0].As<Napi::String>().Utf8Value().c_str()));
+        hext::ParseHext(hext_str.c_str(), hext_str.size()));
   }
   catch( const hext::SyntaxError& e )
   {
-- 
2.43.0


From bb15d83a1a894007a9224642c541ec2147d87318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:43 +0000
Subject: [PATCH 20/22] fix: keep captures named __proto__ in the Node binding

---
 libhext/bindings/nodejs/src/Rule.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index 04c5a33..b49713f 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -177,9 +177,12 @@ Napi::Value Rule::extract(const Napi::CallbackInfo& info)
     {
       if( group.count(it->first) < 2 )
       {
-        map.Set(
-            Napi::String::New(env, it->first),
-            Napi::String::New(env, it->second));
+        // Object::Set would drop a capture named __proto__
+        map.DefineProperty(
+            Napi::PropertyDescriptor::Value(
+                Napi::String::New(env, it->first),
+                Napi::String::New(env, it->second),
+                napi_default_jsproperty));
         ++it;
       }
       else
@@ -192,9 +195,11 @@ Napi::Value Rule::extract(const Napi::CallbackInfo& info)
           array.Set(
               array.Length(),
               Napi::String::New(env, lower->second));
-        map.Set(
-            Napi::String::New(env, it->first),
-            array);
+        map.DefineProperty(
+            Napi::PropertyDescriptor::Value(
+                Napi::String::New(env, it->first),
+                array,
+                napi_default_jsproperty));
         it = upper;
       }
     }
-- 
2.43.0


From 53aa3e69189e3c897788fb83d0661fef795ca705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:32 +0000
Subject: [PATCH 21/22] fix: filter the whole text, not only up to its first
 NUL byte

---
 libhext/src/RegexPipe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhext/src/RegexPipe.cpp b/libhext/src/RegexPipe.cpp
index 144cf6f..8b80945 100644
--- a/libhext/src/RegexPipe.cpp
+++ b/libhext/src/RegexPipe.cpp
@@ -25,8 +25,8 @@ RegexPipe::RegexPipe(boost::regex regex)
 
 std::string RegexPipe::transform(std::string str) const
 {
-  boost::match_results<const char *> mr;
-  if( boost::regex_search(str.c_str(), mr, this->regex_) )
+  boost::smatch mr;
+  if( boost::regex_search(str, mr, this->regex_) )
   {
     // If there are no parentheses contained within the regex, return whole
     // regex capture (mr[0]), if there are, then return the first one.
-- 
2.43.0


From 26cd30de9e5a50bfbb95957be97d1273c568fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:59 +0000
Subject: [PATCH 22/22] fix: keep the content of SVG and MathML elements named
 like void elements in @inner-html

---
 libhext/src/NodeUtil.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index 73848b1..7a5577a 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -189,7 +189,8 @@ void SerializeElement(const GumboElement& e, std::ostringstream& os)
     SerializeAttribute(*attribute, os);
   }
 
-  if( !TagIsSelfClosing(e.tag) )
+  // Only HTML has void elements: <link> within <svg> may have content
+  if( e.tag_namespace != GUMBO_NAMESPACE_HTML || !TagIsSelfClosing(e.tag) )
   {
     os << '>';
 
-- 
2.43.0

