From d3baff0085c009a65617c7c1d2b8ce4abd3897c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 01/30] fix: keep a separator that contains a tab whole

A separator run was passed to the Token(string) constructor, which parses
its argument as a tab separated record: everything after the first tab was
lost, and a lone tab became an empty PUNCT token instead of a SPACE.
---
 src/tokenizer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 2806648..04e4738 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -236,7 +236,10 @@ std::vector<Token> Tokenizer::getTokens( std::string str ) {
 
         // create a token for the punctuation
         if (what[2].first < what[2].second) {
-            Token punct( std::string(what[2].first, what[2].second) );
+            // set the text directly, the Token(string) constructor would
+            // cut it at the first tab
+            Token punct;
+            punct.text( std::string(what[2].first, what[2].second) );
             punct.trim( 3 );    // trim white space from both ends of token
             lex_.classify(punct, InClass::PUNCT);
             outtokens.push_back(punct);
-- 
2.43.0


From dd2e5de64aa19b567c72e1260e695b189c110d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 02/30] fix: quote ^ { and } in the lexicon regular expression

A lexicon word with one of these characters made the token regex invalid
(or silently wrong), so that nothing could be parsed with that lexicon.
---
 src/trieutf8.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trieutf8.cpp b/src/trieutf8.cpp
index aee5370..c10f3b6 100644
--- a/src/trieutf8.cpp
+++ b/src/trieutf8.cpp
@@ -121,7 +121,7 @@ void TrieUtf8::getWordsStartingWith( const std::string &prefix, WordSet &words,
 
 
 std::string TrieUtf8::quoteMeta( const std::string &str ) const {
-    static std::string special( "-.+*~$()[]\\|?" );
+    static std::string special( "-.+*~$^(){}[]\\|?" );
 
     std::string tmp;
     size_t last = 0;
-- 
2.43.0


From 3afa340a4bd433921a199388c291f20db4d8721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 03/30] fix: count characters, not bytes, for SINGLE, DOUBLE,
 QUAD and QUINT

---
 src/lexicon.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 098a8d2..aa3e80b 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -198,6 +198,16 @@ void Lexicon::standardize( Token& token ) {
 }
 
 
+// number of characters (code points) in valid UTF-8 text
+static std::size_t countChars( const std::string &str ) {
+    std::size_t cnt = 0;
+    for ( const char c : str )
+        if ( (c & 0xC0) != 0x80 )
+            ++cnt;
+    return cnt;
+}
+
+
 void Lexicon::classify( Token& token, InClass::Type typ ) {
     
     // fetch the entry from the lexicon
@@ -243,9 +253,9 @@ void Lexicon::classify( Token& token, InClass::Type typ ) {
     }
     else if (boost::u32regex_match( text, num_exp )) {
         token.inclass( InClass::NUMBER );
-        if (text.length() == 4)
+        if (countChars( text ) == 4)
             token.inclass( InClass::QUAD );
-        if (text.length() == 5)
+        if (countChars( text ) == 5)
             token.inclass( InClass::QUINT );
     }
     else if ( text == "@" ) {
@@ -274,9 +284,9 @@ void Lexicon::classify( Token& token, InClass::Type typ ) {
         if (boost::u32regex_match( text, has_digit ))
             token.inclass( InClass::MIXED );
         else {
-            if (text.length() == 2)
+            if (countChars( text ) == 2)
                 token.inclass( InClass::DOUBLE );
-            else if (text.length() == 1)
+            else if (countChars( text ) == 1)
                 token.inclass( InClass::SINGLE );
 
             token.inclass( InClass::WORD );
-- 
2.43.0


From 231e7d9a3b893aa13818927784efe05928adeb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 04/30] fix: do not split a blank token into empty words

Every blank separator token that was not filtered out counted as a token
with several words: it doubled the number of alternative readings, and
half of them held empty tokens.
---
 src/tokenizer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 04e4738..476b412 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -11,6 +11,7 @@
  *
  ***************************************************ADDRESS_STANDARDIZER**/
 
+#include <algorithm>
 #include <vector>
 #include <string>
 #include <boost/algorithm/string/classification.hpp>
@@ -280,6 +281,8 @@ std::vector<std::vector<Token> > Tokenizer::getAltTokens( const std::vector<Toke
         std::vector<std::string> words;
         std::string str( t.text() );
         boost::split(words, str, boost::is_any_of(" "), boost::token_compress_on);
+        // leading or trailing blanks do not make words
+        words.erase( std::remove( words.begin(), words.end(), "" ), words.end() );
         alt.push_back( words );
     }
 
@@ -305,7 +308,7 @@ std::vector<std::vector<Token> > Tokenizer::getAltTokens( const std::vector<Toke
         long unsigned int n = 0;
         std::vector<Token> one;
         for ( long unsigned int j=0; j<alt.size(); ++j ) {
-            if ( alt[j].size() == 1 ) 
+            if ( alt[j].size() <= 1 ) 
                 one.push_back( in[j] );
             else {
                 if ( i / (1<<n) % 2 == 0 ) 
-- 
2.43.0


From 6f157795590acab66fdb0b5b59ad6e50ef3a4e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 05/30] fix: continue each partial match on its own path
 instead of all of them

Search::matchNext restarted the whole list of partial matches for every
partial match with sections left, so a derivation was reported once per
sibling and the work grew exponentially with the number of sections.
---
 src/search.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/search.cpp b/src/search.cpp
index 74f588a..63dde7c 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -392,9 +392,9 @@ SearchPaths Search::matchNext( const SearchPath &path, const unsigned long int l
 
     for ( const auto &result : mr ) {
         if ( result.next.size() > 0 ) {
-            SearchPaths nextResults = matchNext( mr, level );
-            for ( const auto &result : nextResults )
-                results.push_back( result );
+            SearchPaths nextResults = matchNext( result, level );
+            for ( const auto &next : nextResults )
+                results.push_back( next );
         }
         else {
             results.push_back( result );
-- 
2.43.0


From 19edeca39744cc628e61e80cf8434b7c8a93216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 06/30] fix: point a copied grammar's sections at its own
 sections

A copy, such as the one every Search makes, kept section pointers into
the grammar it was copied from, which dangled when that one was
destroyed or assigned to.
---
 src/grammar.cpp | 22 ++++++++++++++++++++++
 src/grammar.h   |  3 ++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index 7b84814..34d21b2 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -45,6 +45,28 @@ Grammar::Grammar( std::istream &is )
 }
 
 
+Grammar::Grammar( const Grammar &g )
+    : metas_(g.metas_), rules_(g.rules_), sectionIndex_(g.sectionIndex_),
+      md5_(g.md5_), issues_(g.issues_), status_(g.status_)
+{
+    // the copied section pointers refer to the sections of g
+    updatePointers();
+}
+
+
+Grammar &Grammar::operator=( const Grammar &g )
+{
+    if ( this != &g ) {
+        metas_ = g.metas_;
+        rules_ = g.rules_;
+        sectionIndex_ = g.sectionIndex_;
+        md5_ = g.md5_;
+        updatePointers();
+    }
+    return *this;
+}
+
+
 void Grammar::initialize( std::istream &is )
 {
     std::string grammar_in;
diff --git a/src/grammar.h b/src/grammar.h
index 7effbbb..a79ea72 100644
--- a/src/grammar.h
+++ b/src/grammar.h
@@ -64,7 +64,8 @@ public:
         CHECK_WARN  =  1
     } Status;
 
-    Grammar( const Grammar& ) = default;
+    Grammar( const Grammar &g );
+    Grammar &operator=( const Grammar &g );
     explicit Grammar( const std::string &file );
     explicit Grammar( const char *grammar_in );
     explicit Grammar( std::istream &is );
-- 
2.43.0


From ca3fa250856bab83e2f8dce9d81888c3f8efbbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 07/30] fix: remove exactly the three bytes of a UTF-8
 byte-order mark

The first character of the text was dropped with it, so that any lexicon
or grammar with a BOM was rejected or misread.
---
 src/grammar.cpp | 2 +-
 src/lexicon.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index 34d21b2..c8b929e 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -91,7 +91,7 @@ void Grammar::initialize( std::istream &is )
 
         // remove UTF8 BOM if one exists
         if ( line_cnt == 1 and line[0] == '\xEF' and line[1] == '\xBB' and line[2] == '\xBF' )
-            line = line.substr(4);
+            line = line.substr(3);
 
         // skip over comments and blank lines
         if ( boost::u32regex_match( line, re_comment ) ) 
diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index aa3e80b..435ca4e 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -74,7 +74,7 @@ void Lexicon::initialize( std::istream &is ) {
 
     // remove UTF8 BOM if one exists
     if (line[0] == '\xEF' && line[1] == '\xBB' && line[2] == '\xBF')
-        line = line.substr(4);
+        line = line.substr(3);
     ++cnt;
 
     // read the header and skip any
-- 
2.43.0


From c367524f6c5c5d08c08b2a4c28c9768dc511b10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 08/30] fix: do not read the last line twice when it has no
 line end

getline leaves the line alone once the end is reached, so the last rule
of a grammar was added twice, its derivations were reported twice, and a
lexicon of only a header was rejected.
---
 src/grammar.cpp | 3 +--
 src/lexicon.cpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index c8b929e..aef4433 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -83,9 +83,8 @@ void Grammar::initialize( std::istream &is )
 
     boost::smatch what;
     int line_cnt = 0;
-    while ( is ) {
+    while ( std::getline( is, line ) ) {
         ++line_cnt;
-        std::getline( is, line );
         grammar_in += line;
         //std::cout << "\t" << line_cnt << ": " << line << "\n";
 
diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 435ca4e..0e29c96 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -111,8 +111,7 @@ void Lexicon::initialize( std::istream &is ) {
     UErrorCode errorCode;
 
     // read in the lexicon entries
-    while ( is ) {
-        std::getline( is, line );
+    while ( std::getline( is, line ) ) {
         lexicon_in += line;
         ++cnt;
         //std::cout << "\t" << line << "\n";
-- 
2.43.0


From 57682a52750e1a510e0dccfa8dc872fd29a12155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 09/30] fix: accept CRLF line ends in a lexicon, as in a
 grammar

The CR became part of the last field, so every entry line was rejected.
---
 src/lexicon.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 0e29c96..1242606 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -64,6 +64,13 @@ Lexicon::Lexicon(std::string name, std::string file) :
 }
 
 
+// remove the CR of a CRLF line end
+static void trimCR( std::string &line ) {
+    if ( not line.empty() and line.back() == '\r' )
+        line.pop_back();
+}
+
+
 void Lexicon::initialize( std::istream &is ) {
     std::string line;
     std::string lexicon_in;
@@ -71,6 +78,7 @@ void Lexicon::initialize( std::istream &is ) {
 
     std::getline( is, line );
     lexicon_in += line;
+    trimCR( line );
 
     // remove UTF8 BOM if one exists
     if (line[0] == '\xEF' && line[1] == '\xBB' && line[2] == '\xBF')
@@ -84,6 +92,7 @@ void Lexicon::initialize( std::istream &is ) {
         }
         std::getline( is, line );
         lexicon_in += line;
+        trimCR( line );
         ++cnt;
     }
 
@@ -113,6 +122,7 @@ void Lexicon::initialize( std::istream &is ) {
     // read in the lexicon entries
     while ( std::getline( is, line ) ) {
         lexicon_in += line;
+        trimCR( line );
         ++cnt;
         //std::cout << "\t" << line << "\n";
 
-- 
2.43.0


From 91976fe8623be6b6f1948ca4ebccf67ba74c0e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 10/30] fix: correct the F and G functions of MD5

Misplaced parentheses made every digest differ from RFC 1321 and much
weaker: z masked the whole of F, and ~z the whole of G.
---
 src/md5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/md5.cpp b/src/md5.cpp
index 65153e0..6587fa1 100644
--- a/src/md5.cpp
+++ b/src/md5.cpp
@@ -60,11 +60,11 @@ documentation and/or software.
 
 // F, G, H and I are basic MD5 functions.
 inline MD5::uint4 MD5::F( uint4 x, uint4 y, uint4 z ) {
-    return ( ( x & y ) | ~x ) & z;
+    return ( x & y ) | ( ~x & z );
 }
 
 inline MD5::uint4 MD5::G( uint4 x, uint4 y, uint4 z ) {
-    return ( ( x & z ) | y ) & ~z;
+    return ( x & z ) | ( y & ~z );
 }
 
 inline MD5::uint4 MD5::H( uint4 x, uint4 y, uint4 z ) {
-- 
2.43.0


From 89840ba71e066ba35447ffd785e757d7bdc2d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:14 +0000
Subject: [PATCH 11/30] fix: keep a broken-out word that contains a tab whole

getAltTokens passed each word to the Token(string) constructor, which
parses a tab separated record: the word was cut at its first tab.
---
 src/tokenizer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 476b412..14f91f9 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -315,7 +315,10 @@ std::vector<std::vector<Token> > Tokenizer::getAltTokens( const std::vector<Toke
                     one.push_back( in[j] );
                 else
                     for ( const auto &w : alt[j] ) {
-                        Token tok( w );
+                        // set the text directly, the Token(string)
+                        // constructor would cut it at the first tab
+                        Token tok;
+                        tok.text( w );
                         lex_.classify( tok, InClass::WORD );
                         one.push_back( tok );
                     }
-- 
2.43.0


From a6984f2175ac43b0989b1339809eea369e270ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 12/30] fix: free the lexicon when loading it fails

getLexiconPtr leaked the Lexicon object when its text was rejected.
---
 src/as_wrapper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/as_wrapper.cpp b/src/as_wrapper.cpp
index 622798b..966ab47 100644
--- a/src/as_wrapper.cpp
+++ b/src/as_wrapper.cpp
@@ -15,6 +15,7 @@
 #include <exception>
 #include <stdexcept>
 #include <iostream>
+#include <memory>
 #include <string>
 #include <vector>
 #include <cstdlib>
@@ -562,7 +563,8 @@ void *getLexiconPtr( char *lexicon_in, char **err_msg )
     try {
         std::string s( lexicon_in );
         std::istringstream iss( s );
-        Lexicon* lexicon = new Lexicon;
+        // owned here until it is loaded, so it is not leaked if loading throws
+        std::unique_ptr<Lexicon> lexicon( new Lexicon );
         try {
             boost::archive::text_iarchive ia(iss);
             ia >> *lexicon;
@@ -581,7 +583,7 @@ void *getLexiconPtr( char *lexicon_in, char **err_msg )
             lexicon->name( "query-lex" );
             lexicon->initialize( iss );
         }
-        return static_cast<void*>(lexicon);
+        return static_cast<void*>(lexicon.release());
     }
     catch ( std::runtime_error &e ) {
         *err_msg = strdup( e.what() );
-- 
2.43.0


From 91333d34a7ea0bbbc1178b7a75941523338f4844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:25 +0000
Subject: [PATCH 13/30] fix: do not recurse once per character of a lexicon
 word

A word of 100,000 characters overflowed the stack in addWord, getRegexp or
the destructor of the trie.
---
 src/trieutf8.cpp | 44 ++++++++++++++++++++++++++------------------
 src/trieutf8.h   | 13 +++++++++++--
 2 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/trieutf8.cpp b/src/trieutf8.cpp
index c10f3b6..13b36a2 100644
--- a/src/trieutf8.cpp
+++ b/src/trieutf8.cpp
@@ -21,26 +21,25 @@
 
 
 void TrieUtf8::addWord( const std::string &word ) {
-    Utf8Iterator it = word.begin();
-    Utf8Iterator end = word.end();
-    if ( it != end ) {
-        ++_size;
+    std::string rest( word );
+    TrieUtf8 *node = this;
+
+    // a word can be long: step down in a loop, not by recursion
+    while ( rest.length() > 0 ) {
+        Utf8Iterator it( rest.begin() );
+        Utf8Iterator end( rest.end() );
+        ++node->_size;
         // get the code point for the trie
         char32_t c = *it;
         ++it;  // step to the next code point
-        std::string subword = it.substr( end );
-        if ( _children[ c ] ) {
-            if ( it == end )
-                _children[ c ]->_isEnd = true;
-            else
-                _children[ c ]->addWord( subword );
-        }
-        else {
-            TrieUtf8 *tmp = new TrieUtf8( it == end );
-            tmp->addWord( subword );
-            _children[ c ] = tmp;
-        }
+        rest = it.substr( end );
+        TrieUtf8 *&child = node->_children[ c ];
+        if ( not child )
+            child = new TrieUtf8();
+        node = child;
     }
+    if ( node != this )
+        node->_isEnd = true;
 }
 
 
@@ -151,8 +150,17 @@ std::string TrieUtf8::getRegexp() const {
     for ( auto &e : _children ) {
         //std::cout << CodePointToUtf8( e.first ) << ": " << *e.second;
         std::string qchar = quoteMeta( CodePointToUtf8( e.first ) );
-        auto recurse = e.second->getRegexp();
-        if ( recurse.length() > 0 )
+        const TrieUtf8 *node = e.second;
+        bool run = false;
+        // a word can be long: spell out a run of single children in a loop
+        while ( not node->_isEnd and node->_children.size() == 1 ) {
+            qchar += quoteMeta(
+                CodePointToUtf8( node->_children.begin()->first ) );
+            node = node->_children.begin()->second;
+            run = true;
+        }
+        auto recurse = node->getRegexp();
+        if ( run or recurse.length() > 0 )
             alt.push_back( qchar + recurse );
         else
             cc.push_back( qchar );
diff --git a/src/trieutf8.h b/src/trieutf8.h
index 985f402..37831c4 100644
--- a/src/trieutf8.h
+++ b/src/trieutf8.h
@@ -39,8 +39,17 @@ class TrieUtf8 {
 public:
     TrieUtf8( bool end = false ) :_size( 0 ), _isEnd( end ) {};
     ~TrieUtf8() {
-        for (auto &it : _children)
-            delete it.second;
+        for (auto &it : _children) {
+            // a word can be long: follow a run of single children in a loop
+            TrieUtf8 *node = it.second;
+            while ( node and node->_children.size() == 1 ) {
+                TrieUtf8 *next = node->_children.begin()->second;
+                node->_children.clear();
+                delete node;
+                node = next;
+            }
+            delete node;
+        }
     };
 
     void addWord( const std::string &word );
-- 
2.43.0


From 5ca02df17e8c5035ba75e86ec9e01a22494647a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 14/30] fix: pass a place for the message when loading a
 standardizer

A lexicon or grammar that cannot be loaded crashed the backend instead of
raising the SQL error.
---
 src/std_pg_hash.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/std_pg_hash.c b/src/std_pg_hash.c
index 9f96aa9..591e009 100644
--- a/src/std_pg_hash.c
+++ b/src/std_pg_hash.c
@@ -587,7 +587,7 @@ CreateStd(char *lexicon, char *grammar)
     STANDARDIZER     *std;
     void             *lex;
     void             *gmr;
-    char            **err_msg = NULL;
+    char             *err_msg = NULL;
     char             *pmsg;
 
     DBG("Enter: CreateStd");
@@ -599,26 +599,26 @@ CreateStd(char *lexicon, char *grammar)
 
 
     DBG("Calling getLexiconPtr( lexicon, err_msg )");
-    lex = getLexiconPtr( lexicon, err_msg );
+    lex = getLexiconPtr( lexicon, &err_msg );
     DBG("Back from (%p) getLexiconPtr( lexicon, err_msg )", lex);
     if (!lex) {
         std_free(std);
         SPI_finish();
-        pmsg = pstrdup(*err_msg);
-        free(*err_msg);
+        pmsg = pstrdup(err_msg ? err_msg : "out of memory");
+        free(err_msg);
         elog(ERROR, "CreateStd: failed to load Lexicon (%s)", pmsg);
     }
     std->lex_obj = lex;
 
     DBG("Calling getGrammarPtr( grammar, err_msg )");
-    gmr = getGrammarPtr( grammar, err_msg );
+    gmr = getGrammarPtr( grammar, &err_msg );
     DBG("Back from (%p) getGrammarPtr( grammar, err_msg )", gmr);
     if (!gmr) {
         freeLexiconPtr( lex );
         std_free(std);
         SPI_finish();
-        pmsg = pstrdup(*err_msg);
-        free(*err_msg);
+        pmsg = pstrdup(err_msg ? err_msg : "out of memory");
+        free(err_msg);
         elog(ERROR, "CreateStd: failed to load Gammar (%s)", pmsg);
     }
     std->gmr_obj = gmr;
-- 
2.43.0


From 4cc96a1fb31f9a96a347b6d305fd4e722b02c763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 15/30] fix: free the lexicon once when the grammar cannot be
 loaded

---
 src/std_pg_hash.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/std_pg_hash.c b/src/std_pg_hash.c
index 591e009..f349404 100644
--- a/src/std_pg_hash.c
+++ b/src/std_pg_hash.c
@@ -614,8 +614,7 @@ CreateStd(char *lexicon, char *grammar)
     gmr = getGrammarPtr( grammar, &err_msg );
     DBG("Back from (%p) getGrammarPtr( grammar, err_msg )", gmr);
     if (!gmr) {
-        freeLexiconPtr( lex );
-        std_free(std);
+        std_free(std);      /* this frees the lexicon, too */
         SPI_finish();
         pmsg = pstrdup(err_msg ? err_msg : "out of memory");
         free(err_msg);
-- 
2.43.0


From f66680cd02fc233afbda2a2c68c989d4f400d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 16/30] fix: do not close the caller's SPI connection on an
 error

The standardizer opens no SPI connection of its own.
---
 src/std_pg_hash.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/std_pg_hash.c b/src/std_pg_hash.c
index f349404..e7191e0 100644
--- a/src/std_pg_hash.c
+++ b/src/std_pg_hash.c
@@ -603,7 +603,6 @@ CreateStd(char *lexicon, char *grammar)
     DBG("Back from (%p) getLexiconPtr( lexicon, err_msg )", lex);
     if (!lex) {
         std_free(std);
-        SPI_finish();
         pmsg = pstrdup(err_msg ? err_msg : "out of memory");
         free(err_msg);
         elog(ERROR, "CreateStd: failed to load Lexicon (%s)", pmsg);
@@ -615,7 +614,6 @@ CreateStd(char *lexicon, char *grammar)
     DBG("Back from (%p) getGrammarPtr( grammar, err_msg )", gmr);
     if (!gmr) {
         std_free(std);      /* this frees the lexicon, too */
-        SPI_finish();
         pmsg = pstrdup(err_msg ? err_msg : "out of memory");
         free(err_msg);
         elog(ERROR, "CreateStd: failed to load Gammar (%s)", pmsg);
-- 
2.43.0


From 0149d8c12b034a61626bd4af6c693efa59c1685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 17/30] fix: free the error messages of the library in the SQL
 functions

---
 src/address_standardizer.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/address_standardizer.c b/src/address_standardizer.c
index 32b0ba7..f4c8e04 100644
--- a/src/address_standardizer.c
+++ b/src/address_standardizer.c
@@ -121,8 +121,11 @@ Datum as_compile_lexicon(PG_FUNCTION_ARGS)
     DBG("lexicon:\n '%s'", lexicon);
 
     cstr = serialize_lexicon( lexicon, &err_msg );
-    if ( err_msg != NULL )
-        elog(ERROR, "std_standardize threw an error: %s", err_msg);
+    if ( err_msg != NULL ) {
+        pstr = pstrdup(err_msg);
+        free(err_msg);
+        elog(ERROR, "std_standardize threw an error: %s", pstr);
+    }
 
     if (cstr) {
         pstr = pstrdup(cstr);
@@ -236,8 +239,10 @@ Datum as_standardize(PG_FUNCTION_ARGS)
 #endif
     DBG("back from std_standardize");
 
-    if ( err_msg != NULL )
+    if ( err_msg != NULL ) {
         DBG("std_standardize threw an error: %s", err_msg);
+        free(err_msg);
+    }
 
     values = (char **) palloc(17 * sizeof(char *));
     for (k=0; k<17; k++) {
@@ -354,8 +359,10 @@ Datum as_parse(PG_FUNCTION_ARGS)
 #endif
         DBG("back from std_parse_address, nrec=%d", nrec);
 
-        if ( err_msg != NULL )
+        if ( err_msg != NULL ) {
             DBG("std_parse_address threw an error: %s", err_msg);
+            free(err_msg);
+        }
 
         DBG("calling get_call_result_type");
         if (get_call_result_type( fcinfo, NULL, &tuple_desc ) != TYPEFUNC_COMPOSITE ) {
@@ -494,8 +501,10 @@ Datum as_match(PG_FUNCTION_ARGS)
         tokens = std_match_address(address, grammar, lexicon, locale, filter, &nrec, &err_msg);
         DBG("back from std_match_address");
 
-        if ( err_msg != NULL )
+        if ( err_msg != NULL ) {
             DBG("std_match_address threw an error: %s", err_msg);
+            free(err_msg);
+        }
 
         DBG("calling get_call_result_type");
         if (get_call_result_type( fcinfo, NULL, &tuple_desc ) != TYPEFUNC_COMPOSITE ) {
-- 
2.43.0


From 6abd9f0a06fb9ef26ceb7fdca3a341563ac8c803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 18/30] fix: free an empty token array, too

---
 src/address_standardizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/address_standardizer.c b/src/address_standardizer.c
index f4c8e04..df9865c 100644
--- a/src/address_standardizer.c
+++ b/src/address_standardizer.c
@@ -88,7 +88,7 @@ void tokens_free(TOKENS *tokens, int nrec)
 {
     int i;
 
-    if ( nrec < 1 || ! tokens ) return;
+    if ( ! tokens ) return;
     for ( i=0; i<nrec; ++i ) {
         if ( tokens[i].word ) free( tokens[i].word );
         if ( tokens[i].inclass ) free( tokens[i].inclass );
-- 
2.43.0


From 5e92c42f6d072b6db6ecafd36892227d6e910e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 19/30] fix: keep the rows of set returning functions in their
 memory context

They were leaked when the caller did not fetch all of them (LIMIT, or an
error elsewhere in the query).
---
 src/address_standardizer.c | 54 +++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/src/address_standardizer.c b/src/address_standardizer.c
index df9865c..6181a5e 100644
--- a/src/address_standardizer.c
+++ b/src/address_standardizer.c
@@ -99,6 +99,46 @@ void tokens_free(TOKENS *tokens, int nrec)
 }
 
 
+/*
+ *  Move the rows of a set returning function to the current memory context.
+ *  It is released also if the caller does not fetch all of the rows.
+*/
+static TOKENS *tokens_to_context(TOKENS *tokens, int nrec)
+{
+    TOKENS *out;
+    int i;
+
+    if ( ! tokens ) return NULL;
+    out = (TOKENS *) palloc(nrec * sizeof(TOKENS));
+    for ( i=0; i<nrec; ++i ) {
+        out[i].pat = tokens[i].pat;
+        out[i].seq = tokens[i].seq;
+        out[i].word = pstrdup( tokens[i].word );
+        out[i].inclass = pstrdup( tokens[i].inclass );
+        out[i].attached = pstrdup( tokens[i].attached );
+    }
+    tokens_free( tokens, nrec );
+    return out;
+}
+
+
+static MTOKEN *mtokens_to_context(MTOKEN *tokens, int nrec)
+{
+    MTOKEN *out;
+    int i;
+
+    if ( ! tokens ) return NULL;
+    out = (MTOKEN *) palloc(nrec * sizeof(MTOKEN));
+    for ( i=0; i<nrec; ++i ) {
+        out[i] = tokens[i];
+        out[i].tokens = pstrdup( tokens[i].tokens );
+        free( tokens[i].tokens );
+    }
+    free( tokens );
+    return out;
+}
+
+
 /*
  *  CREATE OR REPLACE FUNCTION as_compile_lexicon(
  *          lexicon text
@@ -371,7 +411,7 @@ Datum as_parse(PG_FUNCTION_ARGS)
         BlessTupleDesc(tuple_desc);
 
         funcctx->max_calls = (uint32_t) nrec;
-        funcctx->user_fctx = tokens;
+        funcctx->user_fctx = tokens_to_context(tokens, nrec);
         funcctx->tuple_desc = tuple_desc;
 
         MemoryContextSwitchTo(oldcontext);
@@ -428,8 +468,7 @@ Datum as_parse(PG_FUNCTION_ARGS)
     }
     else    // do when there is no more left
     {
-        DBG("Going to free tokens");
-        tokens_free(tokens, (int) max_calls);
+        // the tokens are released with the function context
         SRF_RETURN_DONE(funcctx);
     }
 }
@@ -468,7 +507,6 @@ Datum as_match(PG_FUNCTION_ARGS)
     char                *locale;
     char                *filter;
     MTOKEN              *tokens;
-    int                  i;
 
     DBG("Start as_match");
 
@@ -513,7 +551,7 @@ Datum as_match(PG_FUNCTION_ARGS)
         BlessTupleDesc(tuple_desc);
 
         funcctx->max_calls = (uint32_t) nrec;
-        funcctx->user_fctx = tokens;
+        funcctx->user_fctx = mtokens_to_context(tokens, nrec);
         funcctx->tuple_desc = tuple_desc;
 
         MemoryContextSwitchTo(oldcontext);
@@ -559,11 +597,7 @@ Datum as_match(PG_FUNCTION_ARGS)
     }
     else    // do when there is no more left
     {
-        DBG("Going to free tokens");
-        for (i=0; i<(int) max_calls; i++)
-            free(tokens[i].tokens);
-        free(tokens);
-
+        // the tokens are released with the function context
         SRF_RETURN_DONE(funcctx);
     }
 }
-- 
2.43.0


From 63560a029fe09e35ff61efad5e9b4dafb06e4e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 20/30] fix: do not take a failed allocation for the end of the
 input

Streams catch std::bad_alloc and only set badbit: a lexicon or grammar was
silently cut short, a class list was read forever.
---
 src/grammar.cpp  | 3 +++
 src/inclass.cpp  | 2 ++
 src/lexentry.cpp | 1 +
 src/lexicon.cpp  | 4 ++++
 src/rule.cpp     | 1 +
 src/token.cpp    | 1 +
 6 files changed, 12 insertions(+)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index aef4433..66a86b2 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -157,6 +157,9 @@ void Grammar::initialize( std::istream &is )
             }
         }
     }
+    if ( is.bad() )
+        throw std::runtime_error("Grammar-Read-Failed");
+
     // save the last section we read in
     if (gotSection.length() > 0) {
         if ( ruleType == ISMETA ) {
diff --git a/src/inclass.cpp b/src/inclass.cpp
index 68c351d..dc61b19 100644
--- a/src/inclass.cpp
+++ b/src/inclass.cpp
@@ -120,6 +120,7 @@ std::set<InClass::Type> InClass::asType(const std::string &s) {
     InClass::Type t;
     std::set<InClass::Type> ret;
     std::stringstream buffer(s);
+    buffer.exceptions( std::ios::badbit );  // a failed allocation must not end the input
     std::string word;
     while (true) {
         std::getline(buffer, word, ',');
@@ -535,6 +536,7 @@ InClass::Lang InClass::asLang(const std::string &s) {
 std::set<InClass::AttachType> InClass::asAttachType(const std::string &s) {
     std::set<InClass::AttachType> type;
     std::stringstream buffer(s);
+    buffer.exceptions( std::ios::badbit );  // a failed allocation must not end the input
     std::string word;
     while (true) {
         std::getline(buffer, word, ',');
diff --git a/src/lexentry.cpp b/src/lexentry.cpp
index 56a787a..92e276a 100644
--- a/src/lexentry.cpp
+++ b/src/lexentry.cpp
@@ -123,6 +123,7 @@ LexEntry::LexEntry(const std::string &line)
     std::string in_attached;
 
     std::stringstream buffer(line);
+    buffer.exceptions( std::ios::badbit );  // a failed allocation must not end the input
     std::getline(buffer, in_word, '\t');
     if (in_word == "LEXENTRY:")
         std::getline(buffer, in_word, '\t');
diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 1242606..ff78203 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -103,6 +103,7 @@ void Lexicon::initialize( std::istream &is ) {
     //std::cout << "\t" << line << "\n";
 
     std::stringstream buffer(line);
+    buffer.exceptions( std::ios::badbit );  // a failed allocation must not end the input
     std::string term;
     std::getline(buffer, term, '\t');
     ++cnt;
@@ -151,6 +152,9 @@ void Lexicon::initialize( std::istream &is ) {
         }
     }
 
+    if ( is.bad() )
+        throw std::runtime_error("Lexicon-Read-Failed");
+
     md5_ = md5( lexicon_in );
 }
 
diff --git a/src/rule.cpp b/src/rule.cpp
index a1fd1b8..633457b 100644
--- a/src/rule.cpp
+++ b/src/rule.cpp
@@ -21,6 +21,7 @@
 Rule::Rule( const std::string &line ) : score_(0.0) {
     std::string token;
     std::stringstream buffer(line);
+    buffer.exceptions( std::ios::badbit );  // a failed allocation must not end the input
 
     // else read normal rule here
     int state = 0;
diff --git a/src/token.cpp b/src/token.cpp
index b418e99..f7ae2b3 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -33,6 +33,7 @@ Token::Token(std::string text) {
     std::string in_attached;
 
     std::stringstream buffer(text);
+    buffer.exceptions( std::ios::badbit );  // a failed allocation must not end the input
     std::getline(buffer, in_word, '\t');
     if (in_word == "TOKEN:")
         std::getline(buffer, in_word, '\t');
-- 
2.43.0


From 04ef76cced385696272d93ad013821f77e9488a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 21/30] fix: report a failed allocation while building a
 result, and do not leak the result

The copies put into STDADDR, TOKENS and MTOKEN were not checked, so a field was
silently missing, and the array was lost when an exception was thrown.
---
 src/as_wrapper.cpp | 105 +++++++++++++++++++++++++++++++++------------
 1 file changed, 77 insertions(+), 28 deletions(-)

diff --git a/src/as_wrapper.cpp b/src/as_wrapper.cpp
index 966ab47..6443fac 100644
--- a/src/as_wrapper.cpp
+++ b/src/as_wrapper.cpp
@@ -16,6 +16,7 @@
 #include <stdexcept>
 #include <iostream>
 #include <memory>
+#include <new>
 #include <string>
 #include <vector>
 #include <cstdlib>
@@ -36,6 +37,54 @@
 #include "address_standardizer.h"
 
 
+// copy a string for the C side, results are released with free() there
+static char *copyString( const std::string &s )
+{
+    char *p = strdup( s.c_str() );
+    if ( ! p )
+        throw std::bad_alloc();
+    return p;
+}
+
+
+// these own a result until it is complete
+
+struct FreeStdaddr {
+    void operator()( STDADDR *p ) const {
+        free( p->building );   free( p->house_num ); free( p->predir );
+        free( p->qual );       free( p->pretype );   free( p->name );
+        free( p->suftype );    free( p->sufdir );    free( p->ruralroute );
+        free( p->extra );      free( p->city );      free( p->prov );
+        free( p->country );    free( p->postcode );  free( p->box );
+        free( p->unit );       free( p->pattern );
+        free( p );
+    }
+};
+
+
+struct FreeTokens {
+    long unsigned int cnt;
+    void operator()( TOKENS *p ) const {
+        for ( long unsigned int i=0; i<cnt; ++i ) {
+            free( p[i].word );
+            free( p[i].inclass );
+            free( p[i].attached );
+        }
+        free( p );
+    }
+};
+
+
+struct FreeMtokens {
+    long unsigned int cnt;
+    void operator()( MTOKEN *p ) const {
+        for ( long unsigned int i=0; i<cnt; ++i )
+            free( p[i].tokens );
+        free( p );
+    }
+};
+
+
 STDADDR *standardize_addr( char *address_in, Grammar & grammar, Lexicon & lexicon, char *locale_in, char *filter_in, char **err_msg);
 
 
@@ -194,7 +243,7 @@ STDADDR *standardize_addr( char *address_in, Grammar & grammar, Lexicon & lexico
             // allocate memory and fill up the STDADDR structure
             // using C-style allocation because it will get
             // freed on the C side of things.
-            STDADDR *stdaddr    = (STDADDR*) calloc( sizeof(STDADDR), 1 );
+            std::unique_ptr<STDADDR, FreeStdaddr> stdaddr( (STDADDR*) calloc( sizeof(STDADDR), 1 ) );
             if ( ! stdaddr ) {
                 *err_msg = strdup( "Out of memory!" );
                 return NULL;
@@ -202,71 +251,71 @@ STDADDR *standardize_addr( char *address_in, Grammar & grammar, Lexicon & lexico
             // assign strings with content and trim off the trailing blank
             if ( v_stdaddr[0].size() > 0 ) {
                 v_stdaddr[0].resize(v_stdaddr[0].size()-1);
-                stdaddr->building   = strdup( v_stdaddr[0].c_str() );
+                stdaddr->building   = copyString( v_stdaddr[0] );
             }
             if ( v_stdaddr[1].size() > 0 ) {
                  v_stdaddr[1].resize(v_stdaddr[1].size()-1);
-                stdaddr->house_num  = strdup( v_stdaddr[1].c_str() );
+                stdaddr->house_num  = copyString( v_stdaddr[1] );
             }
             if ( v_stdaddr[2].size() > 0 ) {
                 v_stdaddr[2].resize(v_stdaddr[2].size()-1);
-                stdaddr->predir     = strdup( v_stdaddr[2].c_str() );
+                stdaddr->predir     = copyString( v_stdaddr[2] );
             }
             if ( v_stdaddr[3].size() > 0 ) {
                 v_stdaddr[3].resize(v_stdaddr[3].size()-1);
-                stdaddr->qual       = strdup( v_stdaddr[3].c_str() );
+                stdaddr->qual       = copyString( v_stdaddr[3] );
             }
             if ( v_stdaddr[4].size() > 0 ) {
                 v_stdaddr[4].resize(v_stdaddr[4].size()-1);
-                stdaddr->pretype    = strdup( v_stdaddr[4].c_str() );
+                stdaddr->pretype    = copyString( v_stdaddr[4] );
             }
             if ( v_stdaddr[5].size() > 0 ) {
                 v_stdaddr[5].resize(v_stdaddr[5].size()-1);
-                stdaddr->name       = strdup( v_stdaddr[5].c_str() );
+                stdaddr->name       = copyString( v_stdaddr[5] );
             }
             if ( v_stdaddr[6].size() > 0 ) {
                 v_stdaddr[6].resize(v_stdaddr[6].size()-1);
-                stdaddr->suftype    = strdup( v_stdaddr[6].c_str() );
+                stdaddr->suftype    = copyString( v_stdaddr[6] );
             }
             if ( v_stdaddr[7].size() > 0 ) {
                 v_stdaddr[7].resize(v_stdaddr[7].size()-1);
-                stdaddr->sufdir     = strdup( v_stdaddr[7].c_str() );
+                stdaddr->sufdir     = copyString( v_stdaddr[7] );
             }
             if ( v_stdaddr[8].size() > 0 ) {
                 v_stdaddr[8].resize(v_stdaddr[8].size()-1);
-                stdaddr->ruralroute = strdup( v_stdaddr[8].c_str() );
+                stdaddr->ruralroute = copyString( v_stdaddr[8] );
             }
             if ( v_stdaddr[9].size() > 0 ) {
                 v_stdaddr[9].resize(v_stdaddr[9].size()-1);
-                stdaddr->extra      = strdup( v_stdaddr[9].c_str() );
+                stdaddr->extra      = copyString( v_stdaddr[9] );
             }
             if ( v_stdaddr[10].size() > 0 ) {
                 v_stdaddr[10].resize(v_stdaddr[10].size()-1);
-                stdaddr->city       = strdup( v_stdaddr[10].c_str() );
+                stdaddr->city       = copyString( v_stdaddr[10] );
             }
             if ( v_stdaddr[11].size() > 0 ) {
                 v_stdaddr[11].resize(v_stdaddr[11].size()-1);
-                stdaddr->prov       = strdup( v_stdaddr[11].c_str() );
+                stdaddr->prov       = copyString( v_stdaddr[11] );
             }
             if ( v_stdaddr[12].size() > 0 ) {
                 v_stdaddr[12].resize(v_stdaddr[12].size()-1);
-                stdaddr->country    = strdup( v_stdaddr[12].c_str() );
+                stdaddr->country    = copyString( v_stdaddr[12] );
             }
             if ( v_stdaddr[13].size() > 0 ) {
                 v_stdaddr[13].resize(v_stdaddr[13].size()-1);
-                stdaddr->postcode   = strdup( v_stdaddr[13].c_str() );
+                stdaddr->postcode   = copyString( v_stdaddr[13] );
             }
             if ( v_stdaddr[14].size() > 0 ) {
                 v_stdaddr[14].resize(v_stdaddr[14].size()-1);
-                stdaddr->box        = strdup( v_stdaddr[14].c_str() );
+                stdaddr->box        = copyString( v_stdaddr[14] );
             }
             if ( v_stdaddr[15].size() > 0 ) {
                 v_stdaddr[15].resize(v_stdaddr[15].size()-1);
-                stdaddr->unit       = strdup( v_stdaddr[15].c_str() );
+                stdaddr->unit       = copyString( v_stdaddr[15] );
             }
-            stdaddr->pattern        = strdup( matched.c_str() );
+            stdaddr->pattern        = copyString( matched );
             *err_msg = (char *)0;
-            return stdaddr;
+            return stdaddr.release();
         }
         // we failed to match
         *err_msg = (char *)0;
@@ -367,7 +416,7 @@ TOKENS *parse_addr( char *address_in, Lexicon & lexicon, char *locale_in, char *
         for ( const auto &phrase : phrases )
             cnt += phrase.size();
 
-        TOKENS * tokens = (TOKENS *) calloc( sizeof(TOKENS), cnt );
+        std::unique_ptr<TOKENS[], FreeTokens> tokens( (TOKENS *) calloc( sizeof(TOKENS), cnt ), FreeTokens{ cnt } );
         if ( ! tokens ) {
             *err_msg = strdup( "Out of memory!" );
             return NULL;
@@ -380,9 +429,9 @@ TOKENS *parse_addr( char *address_in, Lexicon & lexicon, char *locale_in, char *
             for ( const auto &t : phrase ) {
                 tokens[k].pat = i;
                 tokens[k].seq = j;
-                tokens[k].word = strdup( t.text().c_str() );
-                tokens[k].inclass = strdup( InClass::asString( t.inclass() ).c_str() );
-                tokens[k].attached = strdup( InClass::asString( t.attached() ).c_str() );
+                tokens[k].word = copyString( t.text() );
+                tokens[k].inclass = copyString( InClass::asString( t.inclass() ) );
+                tokens[k].attached = copyString( InClass::asString( t.attached() ) );
                 ++j;
                 ++k;
             }
@@ -391,7 +440,7 @@ TOKENS *parse_addr( char *address_in, Lexicon & lexicon, char *locale_in, char *
 
         *nrec = static_cast<int>( cnt );
         *err_msg = (char *)0;
-        return tokens;
+        return tokens.release();
     }
     catch ( std::runtime_error &e ) {
         *err_msg = strdup( e.what() );
@@ -492,7 +541,7 @@ MTOKEN *match_addr( char *address_in, Grammar & grammar, Lexicon & lexicon, char
 
         std::sort( toks.begin(), toks.end(), sortByScoresDesc );
 
-        MTOKEN * tokens = (MTOKEN *) calloc( sizeof(MTOKEN), toks.size() );
+        std::unique_ptr<MTOKEN[], FreeMtokens> tokens( (MTOKEN *) calloc( sizeof(MTOKEN), toks.size() ), FreeMtokens{ toks.size() } );
         if ( ! tokens ) {
             *err_msg = strdup( "Out of memory!" );
             return NULL;
@@ -500,7 +549,7 @@ MTOKEN *match_addr( char *address_in, Grammar & grammar, Lexicon & lexicon, char
 
         int i = 0;
         for ( const auto &t : toks ) {
-            tokens[i].tokens = strdup( t.matched.c_str() );
+            tokens[i].tokens = copyString( t.matched );
             tokens[i].score = t.score;
             tokens[i].nrules = t.nrules;
             ++i;
@@ -508,7 +557,7 @@ MTOKEN *match_addr( char *address_in, Grammar & grammar, Lexicon & lexicon, char
 
         *nrec = static_cast<int>( toks.size() );
         *err_msg = (char *)0;
-        return tokens;
+        return tokens.release();
     }
     catch ( std::runtime_error &e ) {
         *err_msg = strdup( e.what() );
@@ -669,7 +718,7 @@ char * serialize_lexicon( char *lexicon_in, char **err_msg )
         }
 
         *err_msg = (char *)0;
-        return strdup(clex.c_str());
+        return copyString( clex );
 
     }
     catch ( std::runtime_error &e ) {
-- 
2.43.0


From 729e024375fcfdb30079a0937fa084348542ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 22/30] fix: release the transliterator made by
 Utils::unaccentUTF8

---
 src/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 209e5b7..175ea33 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -51,6 +51,7 @@ std::string Utils::unaccentUTF8( const std::string &str ) {
     icu::Transliterator *accentsConverter = icu::Transliterator::createInstance(
         "NFD; [:M:] Remove; NFC", UTRANS_FORWARD, status);
     accentsConverter->transliterate(source);
+    delete accentsConverter;
     // TODO: handle errors with status
 
     // UTF-16 UnicodeString -> UTF-8 std::string
-- 
2.43.0


From 47d827758fe8564b36ae0ca43e2126cd26c09cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 23/30] fix: quote special characters in Trie patterns by
 concatenation, and quote ^ { } too

---
 src/trie.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trie.cpp b/src/trie.cpp
index 827ae74..421924c 100644
--- a/src/trie.cpp
+++ b/src/trie.cpp
@@ -106,12 +106,12 @@ void Trie::getWordsStartingWith( std::string prefix, WordSet &words, std::string
 
 
 std::string Trie::quoteChar( const char c ) const {
-    static std::string special( "-.+*~$()[]\\|?" );
+    static std::string special( "-.+*~$^(){}[]\\|?" );
     auto found = special.find_first_of( c );
     if ( found == std::string::npos )
         return std::string( 1, c );
     else
-        return "\\" + c;
+        return std::string( "\\" ) + c;
 }
 
 
-- 
2.43.0


From ba02b3f98827b6302ac54ea76153c67b4db7fa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:47 +0000
Subject: [PATCH 24/30] fix: start empty when a lexicon text is read after a
 failed archive

---
 src/lexicon.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index ff78203..83a0ee0 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -76,6 +76,12 @@ void Lexicon::initialize( std::istream &is ) {
     std::string lexicon_in;
     unsigned long int cnt = 0;
 
+    // drop what a failed attempt to read an archive may have left
+    lex_.clear();
+    regex_.clear();
+    regexPrefix_.clear();
+    regexSuffix_.clear();
+
     std::getline( is, line );
     lexicon_in += line;
     trimCR( line );
-- 
2.43.0


From 119dd2428b977cdb2d2454a16cbcbcb766f726f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:47 +0000
Subject: [PATCH 25/30] fix: compare-lexicon compared the literal word key
 instead of the entry's word

---
 tools/compare-lexicon | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/compare-lexicon b/tools/compare-lexicon
index 65c0ebc..6411c5f 100755
--- a/tools/compare-lexicon
+++ b/tools/compare-lexicon
@@ -30,7 +30,7 @@ while ( my $line = <LEX> ) {
         my @fields = split(/\t/, $line);
         shift @fields if $fields[0] eq 'LEXENTRY:';
         my $key = shift @fields;
-        push @{$a{key}}, \@fields;
+        push @{$a{$key}}, \@fields;
     }
     else {
         die "ERROR: logic error processing '$fa'!\n";
@@ -57,7 +57,7 @@ while ( my $line = <LEX> ) {
         my @fields = split(/\t/, $line);
         shift @fields if $fields[0] eq 'LEXENTRY:';
         my $key = shift @fields;
-        if ( ! defined $a{key} ) {
+        if ( ! defined $a{$key} ) {
             print "$line\n";
         }
     }
-- 
2.43.0


From 42a23d849103612dd8cd839972417f2cc4df7a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:47 +0000
Subject: [PATCH 26/30] fix: convert-pagc-lex-gaz took the standard word for a
 regular expression

---
 tools/convert-pagc-lex-gaz | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/convert-pagc-lex-gaz b/tools/convert-pagc-lex-gaz
index 9b52659..7015a96 100755
--- a/tools/convert-pagc-lex-gaz
+++ b/tools/convert-pagc-lex-gaz
@@ -41,7 +41,7 @@ sub readfile {
             $lexi{$key} = [$f[1], $f[3], [$types[$f[2]]]];
         }
         else {
-            if ($lexi{$key}[1] =~ /^$f[3]$/i) {
+            if (lc($lexi{$key}[1]) eq lc($f[3])) {
                 push @{$lexi{$key}[2]}, $types[$f[2]];
             }
             else {
-- 
2.43.0


From 5596c64e04ef745e03bf1f9206987ccf928a34b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:57 +0000
Subject: [PATCH 27/30] fix: load-lex-gmr-files failed for file names with
 blanks or quotes, and for a comment that mentions the header

---
 tools/load-lex-gmr-files | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/tools/load-lex-gmr-files b/tools/load-lex-gmr-files
index c46800f..07f6174 100755
--- a/tools/load-lex-gmr-files
+++ b/tools/load-lex-gmr-files
@@ -95,15 +95,15 @@ sub loadFile {
     $fgmr =~ s/lex$/gmr/;
 
     if ( -f $flex && -f $fgmr ) {
-        my $lex = `cat '$flex'`;
-        my $gmr = `cat '$fgmr'`;
-        $lex =~ s/'/''/g;
-        $gmr =~ s/'/''/g;
-        my $head = `grep LEXICON: $flex `;
-        chomp($head);
+        my $lex = readFile($flex);
+        my $gmr = readFile($fgmr);
+        my ($head) = $lex =~ /^(?:\xEF\xBB\xBF)?(LEXICON:[^\r\n]*)/m;
         $head = (split(/\t/, $head))[3];
         $head =~ s/^[^_]+_//;
         $head = lc($head);
+        $lex =~ s/'/''/g;
+        $gmr =~ s/'/''/g;
+        $country =~ s/'/''/g;
         print $PSQL "insert into as_config (countrycode, countryname, dataset, lexicon, grammar, filter) values ( '$head', '$country', '$dataset', '$lex', '$gmr', 'PUNCT,SPACE,DASH' );\n";
     }
     else {
@@ -111,3 +111,12 @@ sub loadFile {
     }
 }
 
+sub readFile {
+    my $f = shift;
+    local $/ = undef;
+    open(my $in, '<', $f) || die "ERROR: failed to open '$f' : $!\n";
+    my $text = <$in>;
+    close($in);
+    return defined $text ? $text : '';
+}
+
-- 
2.43.0


From e74bc0832bb5b36e10fabdd79c02712d6a836ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:41 +0000
Subject: [PATCH 28/30] fix: do not keep the locale of a failed archive for a
 header without one

---
 src/lexicon.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 83a0ee0..3498380 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -78,6 +78,7 @@ void Lexicon::initialize( std::istream &is ) {
 
     // drop what a failed attempt to read an archive may have left
     lex_.clear();
+    locale_.clear();
     regex_.clear();
     regexPrefix_.clear();
     regexSuffix_.clear();
-- 
2.43.0


From 1050e7502ada2fd5f918ded317f468a0531be4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:00 +0000
Subject: [PATCH 29/30] fix: reject a rule whose score is not a number

---
 src/rule.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rule.cpp b/src/rule.cpp
index 633457b..459f87c 100644
--- a/src/rule.cpp
+++ b/src/rule.cpp
@@ -11,6 +11,7 @@
  *
  ***************************************************ADDRESS_STANDARDIZER**/
 
+#include <cmath>
 #include <sstream>
 #include <boost/regex.hpp>
 #include <stdexcept>
@@ -71,6 +72,9 @@ bool Rule::isEmpty() const {
 }
 
 bool Rule::isValid() const {
+    if ( std::isnan( score_ ) )
+        return false;
+
     if ( inClass_.size() != outClass_.size() or score_ <= 0 )
         return false;
 
-- 
2.43.0


From 3535a6b336f3f91bacb741d6453b8626cfacc8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:49 +0000
Subject: [PATCH 30/30] fix: do not return a compiled lexicon cut short by a
 failed allocation

---
 src/as_wrapper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/as_wrapper.cpp b/src/as_wrapper.cpp
index 6443fac..f5002cd 100644
--- a/src/as_wrapper.cpp
+++ b/src/as_wrapper.cpp
@@ -710,6 +710,10 @@ char * serialize_lexicon( char *lexicon_in, char **err_msg )
         boost::archive::text_oarchive oa(ofs);
         oa << lex;
 
+        // a failed allocation sets a flag, the text would be cut short
+        if (ofs.fail())
+            throw std::bad_alloc();
+
         // get the serialized lexicon text and return it
         std::string clex = ofs.str();
         if (clex.size() == 0) {
-- 
2.43.0

