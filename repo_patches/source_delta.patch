From 2ecfdab89c37d54ef31978aa74b18c99f9151ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 001/100] fix: bound the tokenizer's per-line token tables

A line of 100 or more tokens (or whose evaluation order needs more than 100
entries) overflowed struct tokenizer.tokens and the tables in tok_eval.
---
 source/interpreter/tokens.c | 23 ++++++++++++++++-------
 source/interpreter/tokens.h |  4 ++--
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 5b6a3f5..6c1cd9d 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -321,7 +321,8 @@ int tok_convert(struct tokenizer* state){
 	
 	tok_prio(state);
 	
-	tok_eval(state);
+	int eval_res = tok_eval(state);
+	if (eval_res != ERR_NONE) return eval_res;
 	
 	int test_res = tok_test(state);
 	if (test_res != ERR_NONE) return test_res;
@@ -956,15 +957,14 @@ tok_code_exit:
 /// exclusively within tok_eval.
 struct eval {
 	//value and op could be combined maybe
-	struct token* value_stack[100];
-	u8 value_i;
-	struct token* op_stack[100];
+	struct token* op_stack[TOKENS_LINE_MAX+1];
 	u8 op_i;
 	/// Arguments stack
-	u8 argc_stack[64];
+	u8 argc_stack[TOKENS_LINE_MAX+1];
 	u8 argc_i;
 	// reordered tokens for conversion
-	struct token result[100];
+	// (each token generates at most one additional token)
+	struct token result[2*(TOKENS_LINE_MAX+1)];
 	u8 result_i; // first unused entry
 };
 
@@ -984,7 +984,7 @@ void tok_eval_clean_stack(struct eval* e, u16 prio){
 // This one is infinitely less bad than than the PTC-EmkII attempt. :)
 // That one was awful. Go look at it if you want to laugh at bad code.
 // I'm still amazed it worked in the end.
-void tok_eval(struct tokenizer* state){
+int tok_eval(struct tokenizer* state){
 	struct eval e = {0};
 	bool is_for = false;
 	bool is_dim = false;
@@ -1183,10 +1183,14 @@ void tok_eval(struct tokenizer* state){
 		print_token(state, e.result[i]);
 	}
 	
+	if (e.result_i > TOKENS_LINE_MAX){
+		return ERR_SYNTAX; // too many tokens generated to store
+	}
 	for (size_t i = 0; i < e.result_i; ++i){
 		state->tokens[i] = e.result[i];
 	}
 	state->token_i = e.result_i;
+	return ERR_NONE;
 }
 
 // take one line (to /r) and calculate priorities of tokens
@@ -1291,6 +1295,7 @@ int tok_none(struct tokenizer* state){
 	char c = state->source->data[state->cursor];
 	
 	if (c == '\r'){
+		// tokens has room for one newline past TOKENS_LINE_MAX
 		tok_single(state, newline);
 		state->is_comment = false;
 		state->state = TKR_CONVERT;
@@ -1303,6 +1308,10 @@ int tok_none(struct tokenizer* state){
 		return ERR_NONE;
 	}
 	
+	if (state->token_i >= TOKENS_LINE_MAX && c != ' ' && c != '\''){
+		return ERR_SYNTAX; // line has too many tokens to store
+	}
+	
 	if (is_name_start(c)){
 		return tok_name(state);
 	} else if (c == '?'){
diff --git a/source/interpreter/tokens.h b/source/interpreter/tokens.h
index 9fc917a..0b4f582 100644
--- a/source/interpreter/tokens.h
+++ b/source/interpreter/tokens.h
@@ -95,7 +95,7 @@ struct tokenizer {
 	// Current tokenizer state
 	enum tokenizer_state state;
 	// Tokens for a line
-	struct token tokens[TOKENS_LINE_MAX]; //max possible per line
+	struct token tokens[TOKENS_LINE_MAX+1]; //max possible per line + newline
 	// Current token index
 	uint_fast8_t token_i;
 	// Flag to indicate a comment is being parsed
@@ -131,7 +131,7 @@ int tok_convert(struct tokenizer* state);
 
 void tok_prio(struct tokenizer* state);
 
-void tok_eval(struct tokenizer* state);
+int tok_eval(struct tokenizer* state);
 
 int tok_code(struct tokenizer* state);
 
-- 
2.43.0


From 1e5f61b739cd081b1eaf1a2abf01485048981021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 002/100] fix: unmatched closers and the meaning of - in the
 tokenizer

An unmatched ) or ] read before the token table and underflowed the argument
stack, and a - at the start of a line read tokens[-1]. A - after [ was taken
as a subtraction, and one after a &H/&B literal as a negation.
---
 source/interpreter/tokens.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 6c1cd9d..8507d1a 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1027,6 +1027,9 @@ int tok_eval(struct tokenizer* state){
 					}
 				}
 			} else { // assumed ) or ]
+				if (!e.argc_i){
+					return ERR_SYNTAX; // nothing to close
+				}
 				// handle 0-args PI(), BUTTON() case
 				if (state->tokens[i-1].type == operation && state->tokens[i-1].cmd == OP_OPEN_PAREN){
 					e.argc_stack[e.argc_i] = 0;
@@ -1224,12 +1227,14 @@ void tok_prio(struct tokenizer* state){
 					state->tokens[i].prio = nest + 4;
 					break;
 				case OP_SUBTRACT:
-					if ((i>0 && state->tokens[i-1].type == number) ||
+					if (i>0 && (state->tokens[i-1].type == number ||
+							state->tokens[i-1].type == base_number ||
 							state->tokens[i-1].type == name ||
 							state->tokens[i-1].type == sysvar || 
 							(state->tokens[i-1].type == operation && (
-								state->tokens[i-1].cmd > OP_OPEN_PAREN
-							))){
+								state->tokens[i-1].cmd == OP_CLOSE_PAREN ||
+								state->tokens[i-1].cmd == OP_CLOSE_BRACKET
+							)))){
 						state->tokens[i].prio = nest + 4;
 					} else {
 						state->tokens[i].cmd = OP_NEGATE;
-- 
2.43.0


From 081f7d3504d7fc72688c8d6535e3770433948ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 003/100] fix: SORT/RSORT argument counting is per statement

Commas of earlier statements on the line made SORT's range variables arrays,
and variables of later statements were compiled as arrays too.
---
 source/interpreter/tokens.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 8507d1a..bd5b91a 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1066,6 +1066,9 @@ int tok_eval(struct tokenizer* state){
 		} else if (state->tokens[i].type == command || prio > 0){
 			// operator, function or command
 			if (state->tokens[i].type == command){
+				// arrays and argument counts only belong to the command they follow
+				is_sort = false;
+				e.argc_stack[e.argc_i] = 0;
 				// These are all of the special cases
 				// (many are flow control commands with unique parsing needs)
 				if (state->tokens[i].cmd == CMD_DIM){
@@ -1148,6 +1151,8 @@ int tok_eval(struct tokenizer* state){
 			// dim ends
 			tok_eval_clean_stack(&e, 0);
 			is_dim = false;
+			is_sort = false;
+			e.argc_stack[e.argc_i] = 0;
 			implicit_commas = true;
 			if (is_for){
 				e.result[e.result_i++] = (struct token){.type=loop_begin, .ofs=0, .len=1, .prio=0};
-- 
2.43.0


From 9018fc247c7f67523ff63819ca556fb37efe64a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 004/100] fix: bound the type stack used for argument
 validation

tok_test overflowed its 40 entry stack on long argument lists, and underflowed
it when a function or array had fewer arguments than its commas promised.
---
 source/interpreter/tokens.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index bd5b91a..63712d3 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -450,10 +450,9 @@ bool check_cmd(const char* stack, int stack_len, const char* valid){
 
 int tok_test(struct tokenizer* state){
 	// This is argument count and argument type validation.
-	char stack[40];
+	char stack[TOKENS_LINE_MAX+2] = {0}; // each token adds at most one entry
 	u8 stack_i = 0;
 	int argc = 0;
-	stack[0] = 0; // Fixes undefined reads detected via -fanalyzer
 	
 	const char* valid; // Local used for some cases
 	bool is_valid; // Used by some cases
@@ -545,6 +544,9 @@ int tok_test(struct tokenizer* state){
 				break;
 				
 			case function:
+				if (argc > stack_i){
+					return ERR_TEST_FUNCTION; // missing arguments, as in PI(,)
+				}
 				if (argc){
 					stack_i -= argc;
 				}
@@ -563,6 +565,9 @@ int tok_test(struct tokenizer* state){
 				
 			case array_name:
 			case name:
+				if (argc > stack_i){
+					return ERR_TEST_ARRAY; // missing subscripts, as in A[,]
+				}
 				if (argc){
 					// process argc counts first
 					const char* arr_valid = "N,NN";
@@ -585,6 +590,9 @@ int tok_test(struct tokenizer* state){
 				break;
 				
 			case dim_arr:
+				if (argc > stack_i){
+					return ERR_TEST_ARRAY; // missing subscripts, as in A[,]
+				}
 				if (argc){
 					// process argc counts first
 					const char* dim_valid = "N,NN";
@@ -1068,7 +1076,7 @@ int tok_eval(struct tokenizer* state){
 			if (state->tokens[i].type == command){
 				// arrays and argument counts only belong to the command they follow
 				is_sort = false;
-				e.argc_stack[e.argc_i] = 0;
+				e.argc_stack[0] = 0;
 				// These are all of the special cases
 				// (many are flow control commands with unique parsing needs)
 				if (state->tokens[i].cmd == CMD_DIM){
@@ -1152,7 +1160,7 @@ int tok_eval(struct tokenizer* state){
 			tok_eval_clean_stack(&e, 0);
 			is_dim = false;
 			is_sort = false;
-			e.argc_stack[e.argc_i] = 0;
+			e.argc_stack[0] = 0;
 			implicit_commas = true;
 			if (is_for){
 				e.result[e.result_i++] = (struct token){.type=loop_begin, .ofs=0, .len=1, .prio=0};
-- 
2.43.0


From 101c03fa8ea2a01224865e05aed1e1daebeae58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 005/100] fix: report names and literals too long for the
 tokenizer

Variable names over 16 characters aborted in namecmp, and token lengths
wrapped at 256 characters.
---
 source/interpreter/tokens.c | 20 +++++++++++++++++---
 source/interpreter/tokens.h |  2 +-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 63712d3..3e70db7 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1300,7 +1300,9 @@ void tok_with_condition(struct tokenizer* state, bool(*condition)(char)){
 	state->tokens[state->token_i].ofs = state->cursor;
 	char c;
 	do {
-		state->tokens[state->token_i].len++;
+		if (state->tokens[state->token_i].len < UINT8_MAX){
+			state->tokens[state->token_i].len++;
+		}
 		state->cursor++;
 		c = state->source->data[state->cursor];
 	} while (condition(c));
@@ -1344,7 +1346,7 @@ int tok_none(struct tokenizer* state){
 		//whitespace is ignored
 		state->cursor++;
 	} else if (c == '"'){
-		tok_string(state);
+		return tok_string(state);
 	} else if (c == '&') {
 		tok_base_number(state);
 	} else if (is_number(c) || c == '.') {
@@ -1426,13 +1428,21 @@ int tok_name(struct tokenizer* state){
 	} else if (0 <= (index = tok_in_str_index(sysvars, state->source->data, &state->tokens[state->token_i]))){
 		state->tokens[state->token_i].type = sysvar;
 		state->tokens[state->token_i].cmd = index; // overrides len
+	} else {
+		int len = state->tokens[state->token_i].len;
+		if (state->source->data[state->cursor-1] == '$'){
+			--len; // type suffix is not part of the name
+		}
+		if (len > VAR_NAME_MAX_LENGTH){
+			err = ERR_SYNTAX; // too long to store
+		}
 	}
 	
 	state->token_i++;
 	return err;
 }
 
-void tok_string(struct tokenizer* state){
+int tok_string(struct tokenizer* state){
 //	iprintf("Entered string %d\n", state->cursor);
 	if (state->source->data[state->cursor] == '"'){
 		state->cursor++;
@@ -1443,6 +1453,9 @@ void tok_string(struct tokenizer* state){
 	state->tokens[state->token_i].ofs = state->cursor;
 	while (state->source->data[state->cursor] != '"' &&
 			state->source->data[state->cursor] != '\r'){
+		if (state->tokens[state->token_i].len == UINT8_MAX){
+			return ERR_STRING_TOO_LONG;
+		}
 		state->tokens[state->token_i].len++;
 		state->cursor++;
 	}
@@ -1451,6 +1464,7 @@ void tok_string(struct tokenizer* state){
 	}
 	state->token_i++;
 //	iprintf("Exited string %d\n", state->token_i);
+	return ERR_NONE;
 }
 
 void tok_base_number(struct tokenizer* state){
diff --git a/source/interpreter/tokens.h b/source/interpreter/tokens.h
index 0b4f582..d10c42b 100644
--- a/source/interpreter/tokens.h
+++ b/source/interpreter/tokens.h
@@ -123,7 +123,7 @@ int tok_none(struct tokenizer* state);
 
 int tok_name(struct tokenizer* state);
 
-void tok_string(struct tokenizer* state);
+int tok_string(struct tokenizer* state);
 
 void tok_number(struct tokenizer* state);
 
-- 
2.43.0


From 4310a5f94669b4ed273acdc01d02025eabeba53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 006/100] fix: number literals

A & not followed by H or B and a digit swallowed the next characters, line
ends included; literals far out of range wrapped silently instead of
overflowing; and more than six decimals overflowed the conversion.
---
 source/interpreter/strs.c   | 24 ++++++++++-----------
 source/interpreter/tokens.c | 43 ++++++++++++++++++++++++++-----------
 source/interpreter/tokens.h |  4 ++--
 3 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index 85eb283..46ae277 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -174,8 +174,8 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 	size_t len = str_len(str);
 	
 	unsigned int number = 0;
-	unsigned int fraction = 0;
-	unsigned int maximum = 1;
+	uint64_t fraction = 0;
+	uint64_t maximum = 1;
 	
 	bool is_negative = false;
 	
@@ -190,9 +190,12 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 			for (size_t k = i; k < len; ++k){
 				digit = digit_value(str_at_wide(str, k));
 				if (digit >= 0 && digit < base){
-					fraction *= base;
-					maximum *= base;
-					fraction += digit;
+					// Digits after these are too small to affect the result
+					if (maximum < 1000000000000){
+						fraction *= base;
+						maximum *= base;
+						fraction += digit;
+					}
 				} else {
 					// Stop reading on invalid character (useful for VAL)
 					// Note: second period is not allowed
@@ -206,17 +209,14 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 			// Stop reading on invalid character (useful for VAL)
 			break;
 		}
-		if (number >= 524288){
-			break;
+		if (number >= 1048576){
+			break; // too large for any format: leave result out of range
 		}
 	}
 	
-	int64_t combined;
+	int64_t combined = ((int64_t)number * 4096) + 4096 * fraction / maximum;
 	if (is_negative){
-		combined = INT_TO_FP(-number);
-		combined -= INT_TO_FP(1) * fraction / maximum;
-	} else {
-		combined = ((int64_t)number * 4096) + 4096 * fraction / maximum;
+		combined = -combined;
 	}
 	
 //	printf("Number := %f Combined := %d\n", (double)number, combined);
diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 3e70db7..444b488 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -781,11 +781,9 @@ int tok_code(struct tokenizer* state){
 				
 			number_common:
 //				iprintf("full: %lx\n", n);
-				if (((n >> 31) & 0x1) != ((uint64_t)n >> 63)){
-					if (n >= 0x080000000l && n <= 0x0ffffffff && state->tokens[i].type == number){
-						// this is not an error for &H or &B, but is for number
-						return ERR_OVERFLOW;
-					}
+				// the sign bit can be set directly by &H or &B, but not by number
+				if (n > (state->tokens[i].type == number ? (int64_t)INT32_MAX : (int64_t)UINT32_MAX)){
+					return ERR_OVERFLOW;
 				}
 				if (n >= 0 && n < INT_TO_FP(100) && n == (n & (fixp)0xfffff000)){
 					data[(*size)++] = BC_SMALL_NUMBER;
@@ -1348,9 +1346,9 @@ int tok_none(struct tokenizer* state){
 	} else if (c == '"'){
 		return tok_string(state);
 	} else if (c == '&') {
-		tok_base_number(state);
+		return tok_base_number(state);
 	} else if (is_number(c) || c == '.') {
-		tok_number(state);
+		return tok_number(state);
 	} else if (c == ',' || c == ';' || c == '+' || c == '-' || c == '*' || c == '/' || c == '%' ||
 			c == '(' || c == ')' || c == '[' || c == ']'){
 		tok_single(state, operation);
@@ -1467,27 +1465,46 @@ int tok_string(struct tokenizer* state){
 	return ERR_NONE;
 }
 
-void tok_base_number(struct tokenizer* state){
+int tok_base_number(struct tokenizer* state){
 	state->tokens[state->token_i].type = base_number;
 	state->tokens[state->token_i].len = 2;
 	state->tokens[state->token_i].ofs = state->cursor;
-	state->cursor += 2;
-	do {
+	state->cursor++;
+	char base = state->source->data[state->cursor];
+	if (base != 'H' && base != 'B'){
+		return ERR_SYNTAX;
+	}
+	state->cursor++;
+	while (is_number(state->source->data[state->cursor])
+	         || (state->source->data[state->cursor] >= 'A' && state->source->data[state->cursor] <= 'F')){
+		if (base == 'B' && state->source->data[state->cursor] > '1'){
+			return ERR_SYNTAX;
+		}
+		if (state->tokens[state->token_i].len == UINT8_MAX){
+			return ERR_OVERFLOW;
+		}
 		state->tokens[state->token_i].len++;
 		state->cursor++;
-	} while (is_number(state->source->data[state->cursor])
-	         || (state->source->data[state->cursor] >= 'A' && state->source->data[state->cursor] <= 'F'));
+	}
+	if (state->tokens[state->token_i].len == 2){
+		return ERR_SYNTAX; // no digits
+	}
 	state->token_i++;
+	return ERR_NONE;
 }
 
-void tok_number(struct tokenizer* state){
+int tok_number(struct tokenizer* state){
 	state->tokens[state->token_i].type = number;
 	state->tokens[state->token_i].len = 0;
 	state->tokens[state->token_i].ofs = state->cursor;
 	do {
+		if (state->tokens[state->token_i].len == UINT8_MAX){
+			return ERR_OVERFLOW;
+		}
 		state->tokens[state->token_i].len++;
 		state->cursor++;
 	} while (is_number(state->source->data[state->cursor]) || state->source->data[state->cursor] == '.');
 	state->token_i++;
+	return ERR_NONE;
 }
 
diff --git a/source/interpreter/tokens.h b/source/interpreter/tokens.h
index d10c42b..ecb8c70 100644
--- a/source/interpreter/tokens.h
+++ b/source/interpreter/tokens.h
@@ -125,7 +125,7 @@ int tok_name(struct tokenizer* state);
 
 int tok_string(struct tokenizer* state);
 
-void tok_number(struct tokenizer* state);
+int tok_number(struct tokenizer* state);
 
 int tok_convert(struct tokenizer* state);
 
@@ -141,7 +141,7 @@ bool check_cmd(const char* stack, int stack_len, const char* valid);
 /// Returns error code
 int tok_test(struct tokenizer* state);
 
-void tok_base_number(struct tokenizer* state);
+int tok_base_number(struct tokenizer* state);
 
 // debug
 void print_token(struct tokenizer* state, struct token t);
-- 
2.43.0


From 38bd6ead6dcaf90a333ada38ef076be487f47dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 007/100] fix: printing -524288 and fractions that round up to
 one

Both produced characters that are not digits (4095/4096 became '0.:').
---
 source/interpreter/strs.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index 46ae277..b9a1dcb 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -268,11 +268,16 @@ void fixp_to_char(const fixp n, u8* str){
 	if (n < 0){
 		(*str++) = '-';
 	}
-	fixp num = n < 0 ? -n : n;
+	u32 num = n < 0 ? -(u32)n : (u32)n;
 	
 	u32 integer = num >> FIXPOINT;
 	const u32 decimal_mask = (INT_TO_FP(1) - 1); //default: 0x00000fff
 	u32 decimal = ((((num & decimal_mask) + 2) * 1000) >> FIXPOINT);
+	if (decimal == 1000){
+		// rounded up to the next integer
+		decimal = 0;
+		++integer;
+	}
 	u32 divisor = 100000;
 	bool trailing = false;
 	// Loop until divisor is zero (to get all digits)
-- 
2.43.0


From 5f4d853a14dc809fc9b234769a9b77e071160aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 008/100] fix: do not read past the end of source without a
 final line end

Also require a name after @, so that @ alone does not swallow the line end.
---
 source/interpreter/tokens.c | 42 +++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 444b488..03a84dc 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -219,6 +219,11 @@ void print_token(struct tokenizer* state, struct token t){
 	iprintf("\n");
 }
 
+/// Current source character, or a line end if the source is missing its last one
+static char tok_char(const struct tokenizer* state){
+	return state->cursor < state->source->size ? state->source->data[state->cursor] : '\r';
+}
+
 int tokenize(struct program* src, struct bytecode* out){
 	return tokenize_full(src, out, NULL, 0);
 }
@@ -257,7 +262,8 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 			state.output->data[state.output->size++] = BC_ERROR;
 			state.output->data[state.output->size++] = error;
 			iprintf("Error at: %d\n", (int)state.output->size);
-			while (state.source->data[state.cursor++] != '\r');
+			while (tok_char(&state) != '\r') ++state.cursor;
+			++state.cursor;
 			error = ERR_NONE;
 			state.token_i = 0;
 			continue;
@@ -1302,7 +1308,7 @@ void tok_with_condition(struct tokenizer* state, bool(*condition)(char)){
 			state->tokens[state->token_i].len++;
 		}
 		state->cursor++;
-		c = state->source->data[state->cursor];
+		c = tok_char(state);
 	} while (condition(c));
 }
 
@@ -1310,7 +1316,7 @@ void tok_with_condition(struct tokenizer* state, bool(*condition)(char)){
 int tok_none(struct tokenizer* state){
 	// This state represents: Whitespace and default state
 	// This state can transition to:
-	char c = state->source->data[state->cursor];
+	char c = tok_char(state);
 	
 	if (c == '\r'){
 		// tokens has room for one newline past TOKENS_LINE_MAX
@@ -1356,13 +1362,16 @@ int tok_none(struct tokenizer* state){
 	} else if (c == '<' || c == '=' || c == '>' || c == '!'){
 		tok_single(state, operation);
 		// check for <= == >= !=
-		if (state->source->data[state->cursor] == '='){
+		if (tok_char(state) == '='){
 			state->tokens[state->token_i - 1].len++;
 			state->cursor++;
 		}
 		state->tokens[state->token_i-1].cmd = tok_in_str_index(bc_conv_operations, state->source->data, &state->tokens[state->token_i-1]);
 	} else if (c == '@'){
 		state->cursor++;
+		if (!is_name(tok_char(state))){
+			return ERR_SYNTAX; // label without a name
+		}
 		tok_with_condition(state, is_name);
 		if (state->tokens[state->token_i].len > 16){
 			return ERR_LABEL_TOO_LONG;
@@ -1381,13 +1390,14 @@ int tok_none(struct tokenizer* state){
 }
 
 int tok_label(struct tokenizer* state){
-	if (state->source->data[state->cursor++] != ' '){
+	if (tok_char(state) != ' '){
 			return ERR_SYNTAX;
 		}
-		while (state->source->data[state->cursor] == ' '){
+		state->cursor++;
+		while (tok_char(state) == ' '){
 			state->cursor++;
 		}
-		if (!is_name(state->source->data[state->cursor])){
+		if (!is_name(tok_char(state))){
 			return ERR_SYNTAX;
 		}
 		tok_with_condition(state, is_name);
@@ -1442,22 +1452,22 @@ int tok_name(struct tokenizer* state){
 
 int tok_string(struct tokenizer* state){
 //	iprintf("Entered string %d\n", state->cursor);
-	if (state->source->data[state->cursor] == '"'){
+	if (tok_char(state) == '"'){
 		state->cursor++;
 	}
 	
 	state->tokens[state->token_i].type = string;
 	state->tokens[state->token_i].len = 0;
 	state->tokens[state->token_i].ofs = state->cursor;
-	while (state->source->data[state->cursor] != '"' &&
-			state->source->data[state->cursor] != '\r'){
+	while (tok_char(state) != '"' &&
+			tok_char(state) != '\r'){
 		if (state->tokens[state->token_i].len == UINT8_MAX){
 			return ERR_STRING_TOO_LONG;
 		}
 		state->tokens[state->token_i].len++;
 		state->cursor++;
 	}
-	if (state->source->data[state->cursor] == '"'){
+	if (tok_char(state) == '"'){
 		state->cursor++;
 	}
 	state->token_i++;
@@ -1470,14 +1480,14 @@ int tok_base_number(struct tokenizer* state){
 	state->tokens[state->token_i].len = 2;
 	state->tokens[state->token_i].ofs = state->cursor;
 	state->cursor++;
-	char base = state->source->data[state->cursor];
+	char base = tok_char(state);
 	if (base != 'H' && base != 'B'){
 		return ERR_SYNTAX;
 	}
 	state->cursor++;
-	while (is_number(state->source->data[state->cursor])
-	         || (state->source->data[state->cursor] >= 'A' && state->source->data[state->cursor] <= 'F')){
-		if (base == 'B' && state->source->data[state->cursor] > '1'){
+	while (is_number(tok_char(state))
+	         || (tok_char(state) >= 'A' && tok_char(state) <= 'F')){
+		if (base == 'B' && tok_char(state) > '1'){
 			return ERR_SYNTAX;
 		}
 		if (state->tokens[state->token_i].len == UINT8_MAX){
@@ -1503,7 +1513,7 @@ int tok_number(struct tokenizer* state){
 		}
 		state->tokens[state->token_i].len++;
 		state->cursor++;
-	} while (is_number(state->source->data[state->cursor]) || state->source->data[state->cursor] == '.');
+	} while (is_number(tok_char(state)) || tok_char(state) == '.');
 	state->token_i++;
 	return ERR_NONE;
 }
-- 
2.43.0


From 92e6a1ce42cd529f3edc075400b201451d1dbb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 009/100] fix: keep compiled code within its buffers

Bytecode larger than MAX_SOURCE_SIZE, more than MAX_LINES lines, DATA longer
than its length byte and the error text of a failed line were not bounded, and
the prompt's line table was sized for another program.
---
 source/interpreter/tokens.c | 24 +++++++++++++++++++++---
 source/system.c             |  2 +-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 03a84dc..654a999 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -17,6 +17,10 @@
 
 #define MAX_SPECIAL_NAME_SIZE 8
 
+/// Any further instructions may not fit. This leaves enough space for the
+/// largest one, the sysvar checks at the end of a line, and an error.
+#define MAX_BYTECODE_SIZE (MAX_SOURCE_SIZE - 2 * (UINT8_MAX + 1))
+
 const char* commands =
 "PRINT   LOCATE  COLOR   DIM     FOR     TO      STEP    NEXT    "
 "IF      THEN    ELSE    [ENDIF] GOTO    GOSUB   ON      RETURN  "
@@ -255,6 +259,10 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 	reset_label(&out->labels);
 	int old_cursor;
 	while (state.cursor < state.source->size){
+		if (state.output->size > MAX_BYTECODE_SIZE){
+			error = ERR_OUT_OF_MEMORY;
+			break;
+		}
 		old_cursor = state.cursor;
 		error = tok_none(&state);
 		if (error != ERR_NONE){
@@ -290,7 +298,7 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 			int line_view = state.cursor - old_cursor;
 			line_view = line_view > 31 ? 31 : line_view;
 			memcpy(state.system->exec.error_info, &state.source->data[old_cursor], line_view);
-			state.system->exec.error_info[line_view+1] = '\0';
+			state.system->exec.error_info[line_view] = '\0';
 		}
 		iprintf("tokenize error: %s\n", error_messages[error]);
 	}
@@ -338,7 +346,9 @@ int tok_convert(struct tokenizer* state){
 	if (code_res != ERR_NONE) return code_res;
 	int line_end = state->output->size;
 	int line_length = line_end - line_begin;
-	state->output->line_length[state->lines_processed++] = line_length;
+	if (state->lines_processed < MAX_LINES){
+		state->output->line_length[state->lines_processed++] = line_length;
+	}
 
 	return ERR_NONE;
 }
@@ -738,6 +748,10 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 				break;
 		}
 
+		if ((u8)*data_size == UINT8_MAX){
+			*size = data_size - data - 1; // discard this instruction
+			return ERR_STRING_TOO_LONG; // length does not fit
+		}
 		// Add character to output
 		data[(*size)++] = c;
 		(*data_size)++;
@@ -759,13 +773,17 @@ int tok_code(struct tokenizer* state){
 	uint64_t sys_validate = 0;
 	
 	for (size_t i = 0; i < state->token_i; ++i){
+		if (*size > MAX_BYTECODE_SIZE){
+			return ERR_OUT_OF_MEMORY;
+		}
 		switch (state->tokens[i].type){
 			case command:
 			case first_of_line_command:;
 				bool first_of_line = state->tokens[i].type == first_of_line_command;
 				state->tokens[i].type = command;
 				if (state->tokens[i].cmd == CMD_DATA){
-					tok_data(state, state->tokens[i], data, size);
+					int data_res = tok_data(state, state->tokens[i], data, size);
+					if (data_res != ERR_NONE) return data_res;
 				} else {
 					// convert token to command
 	//				iprintf("command: %d, %d\n", j, state->tokens[i].cmd);
diff --git a/source/system.c b/source/system.c
index 5bd867a..dbbdb59 100644
--- a/source/system.c
+++ b/source/system.c
@@ -339,7 +339,7 @@ int launch_system(void* launch_info){
 	}
 
 	// Tokenize launcher into big bytecode block
-	struct bytecode_params params = calc_min_bytecode(&p->exec.prg);
+	struct bytecode_params params = calc_min_bytecode(&launcher);
 	struct bytecode prompt_bc = init_bytecode_size(2 * launcher.size, params.lines, params.labels);
 
 	// DIRECT setup
-- 
2.43.0


From 0a8b1d4ccc42cc55ad0cf8c30b0ba4440dfc45ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 010/100] fix: read-only system variables are not variables

TRUE=5, FOR TRUE=1 TO 2, READ TIME$ and others compiled, and then used the
value of the system variable as the address of a variable.
---
 source/interpreter/tokens.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 654a999..5ce8976 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -627,11 +627,15 @@ int tok_test(struct tokenizer* state){
 			case sysvar:
 				{
 				u8 id = state->tokens[i].cmd;
+				// Only these can be used in place of a variable (see sysvars.c)
+				bool writable = id == SYS_TABSTEP || id == SYS_ICONPUSE
+					|| id == SYS_ICONPAGE || id == SYS_ICONPMAX
+					|| id == SYS_MEM || id == SYS_MEMSAFE;
 				if (id == SYS_TIME || id == SYS_DATE || id == SYS_PRGNAME
 					|| id == SYS_PACKAGE || id == SYS_MEM){
-						stack[stack_i++] = 's';
+						stack[stack_i++] = writable ? 's' : 'S';
 					} else {
-						stack[stack_i++] = 'n';
+						stack[stack_i++] = writable ? 'n' : 'N';
 					}
 				}
 				break;
-- 
2.43.0


From 74cccd01a4916cd5658dd98009fc70839c95fe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 011/100] fix: lengths over 127 in bytecode are not negative

A string literal or DATA of 128 or more characters moved the instruction
index backwards where char is signed.
---
 source/interpreter/runner.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 40a9d51..009a48c 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -184,8 +184,8 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 	while (r->index < r->code.size && !p->exec.error){
 		// get one instruction and execute it
 		start_time(&p->time);
-		char instr = r->code.data[r->index++];
-		char data = r->code.data[r->index++];
+		u8 instr = r->code.data[r->index++];
+		u8 data = r->code.data[r->index++];
 		
 		iprintf("%c ", instr);
 		
@@ -402,7 +402,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				iprintf("name=");
 				if (data >= 'A'){
 					iprintf("%c ", data);
-					get_new_arr_var(&p->vars, &data, 1, VAR_NUMBER | VAR_ARRAY, a, b);
+					get_new_arr_var(&p->vars, (char*)&data, 1, VAR_NUMBER | VAR_ARRAY, a, b);
 					r->error = p->vars.error;
 				} else {
 					char* x = (char*)&r->code.data[r->index];
-- 
2.43.0


From 88cf1e1ad3eab8e54d021da3e0ae8f7df23edf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 012/100] fix: check for a full value stack

ON and STEP leave their values on the stack, so repeating them without what
should follow overflowed it.
---
 source/interpreter/runner.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 009a48c..e6718c9 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -182,6 +182,10 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 	p->stack.stack_i = 0;
 
 	while (r->index < r->code.size && !p->exec.error){
+		if (p->stack.stack_i >= VALUE_STACK_SIZE){
+			r->error = ERR_OUT_OF_MEMORY; // e.g. from repeating ON with no GOTO
+			break;
+		}
 		// get one instruction and execute it
 		start_time(&p->time);
 		u8 instr = r->code.data[r->index++];
-- 
2.43.0


From 8057334dbad836487e28285bef1bc47236e5ed6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 013/100] fix: FOR, NEXT and RETURN with unexpected arguments
 or stacks

FOR without a number variable used an arbitrary value as its address, an error
while NEXT evaluates the TO expression was lost (and left its operands as the
result), RETURN read before the call stack when it only held FOR entries, and
TO expressions over 255 bytes of code were cut off.
---
 source/interpreter/flow.c   | 17 ++++++++++++++++-
 source/interpreter/runner.c |  4 ++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 38cae71..cb45f80 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -33,6 +33,10 @@ void cmd_for(struct ptc* p){
 		return;
 	}
 	
+	if (e->type != (VAR_VARIABLE | VAR_NUMBER)){
+		ERROR(ERR_MISSING_OP_ASSIGN_FOR); // not a variable that can be counted with
+	}
+	
 	if (p->calls.stack_i == CALL_STACK_SIZE-1){
 		ERROR(ERR_OUT_OF_MEMORY);
 	}
@@ -45,6 +49,10 @@ void cmd_for(struct ptc* p){
 		ERROR(ERR_FOR_MISSING_BEGIN_LOOP);
 	}
 
+	if (to_size - to_start > UINT8_MAX){
+		ERROR(ERR_SYNTAX); // expression is too long to store
+	}
+
 	// stores beginning of TO [STEP] expression and size of expression
 	p->calls.entry[p->calls.stack_i].address = to_start | ((to_size - to_start) << 24);
 	p->calls.entry[p->calls.stack_i].var = e->value.ptr;
@@ -110,7 +118,14 @@ void cmd_next(struct ptc* p){
 	for_condition.size = to_size;
 	for_condition.data = code.data + to_start;
 	run(for_condition, p);
+	enum err_code error = p->exec.error;
 	p->exec = temp; //restore program state
+	if (error != ERR_NONE){
+		ERROR(error);
+	}
+	if (!p->stack.stack_i){
+		ERROR(ERR_BEGIN_LOOP_NO_END);
+	}
 	
 	// now stack should contain (END, [STEP])
 	s32* current = (s32*)c->var;
@@ -269,7 +284,7 @@ void cmd_return(struct ptc* p){
 		if (p->calls.entry[--stack_i].type == CALL_GOSUB){
 			break;
 		}
-		if (stack_i < 0){
+		if (stack_i <= 0){
 			// did not find GOSUB anywhere in stack
 			p->exec.error = ERR_RETURN_WITHOUT_GOSUB;
 			return;
diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index e6718c9..616c262 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -439,7 +439,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				// call_entry: Var ptr 
 				// stack: end, [step]
 				iprintf("\n");
-				if (!p->calls.stack_i){
+				if (!p->calls.stack_i || p->calls.entry[p->calls.stack_i-1].type != CALL_FOR){
 					p->exec.error = ERR_BEGIN_LOOP_FAIL;
 					break;
 				} else if (!p->stack.stack_i){
@@ -500,7 +500,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 										v = &p->vars.vars[r->code.data[result.prev + 1] | (r->code.data[result.prev + 2] << 8) | (r->code.data[result.prev + 3] << 16)];
 									}
 									// verify variable matches
-									if (current == &v->value.number){
+									if (v && current == &v->value.number){
 										result.index += 2; // past NEXT [var]
 										break; // ignore nesting?
 									}
-- 
2.43.0


From 6e3227f5228f2767bfc5cfec48021873b9564a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 014/100] fix: labels given as strings

A label string with no name or over 17 characters aborted, ON ... GOTO/GOSUB
took the address of a string variable as a label, and the error text of a
missing label was not terminated.
---
 source/interpreter/flow.c  | 9 +++++++--
 source/interpreter/label.c | 8 ++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index cb45f80..7c47541 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -236,13 +236,18 @@ void cmd_goto_gosub(struct ptc* p, bool push_return){
 		// Rest of stack contains labels in order
 		int label_i = VALUE_INT(e);
 //		iprintf("%d,%d\n", (int)label_index, (int)p->stack.stack_i);
+		// All of the labels leave the stack, even if only one is used
+		for (int i = 1; i < (int)p->stack.stack_i; ++i){
+			if (ARG(i)->type & STACK_OP) continue;
+			void* str = value_str(ARG(i));
+			if (i-1 == label_i) label = str;
+		}
 		if (label_i < 0 || label_i+1 >= (int)p->stack.stack_i){
 			return; // No jump: number is out of range
 		}
-		if (p->stack.entry[label_i+1].type & STACK_OP){
+		if (!label){
 			ERROR(ERR_SYNTAX); // label is missing from this slot
 		}
-		label = p->stack.entry[label_i+1].value.ptr;
 	} else {
 		label = value_str(e); //value_str
 	}
diff --git a/source/interpreter/label.c b/source/interpreter/label.c
index 6580785..9ea56c2 100644
--- a/source/interpreter/label.c
+++ b/source/interpreter/label.c
@@ -106,14 +106,18 @@ idx search_label(struct ptc* p, void* label){
 	// Labels must always be located at the beginning of a line.
 	idx index = 0;
 
-	u8 buf[MAX_LABEL_SIZE+1]; // +1 to include the @ symbol in cases of strings
+	u8 buf[MAX_LABEL_SIZE+2] = {0}; // +1 to include the @ symbol in cases of strings, +1 for null
 	char* buf_ptr = (char*)buf;
 	int len = str_len(label);
 	if (*(char*)label == BC_LABEL || *(char*)label == BC_LABEL_STRING){
 		assert(len <= 16);
 		str_char_copy(label, buf);
 	} else { // assume regular string
-		assert(len <= 17);
+		if (len < 2 || len > MAX_LABEL_SIZE+1){
+			// can't be the name of any label
+			p->exec.error = ERR_LABEL_NOT_FOUND;
+			return p->exec.code.size;
+		}
 		str_char_copy(label, buf);
 		++buf_ptr; // pointer past '@'
 		--len; // remove '@'
-- 
2.43.0


From d32d49ff2d14e4bd1fc5c623fa8ad47187c34ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 015/100] fix: array sizes and subscripts

A 1D array accepted any second subscript, -1 as a second subscript or size
meant 'none', negative or very large sizes passed the space check, and an
array that did not fit was created later with a different size. The error of a
failed access also made every later DIM fail.
---
 source/interpreter/arrays.c |  4 ++--
 source/interpreter/runner.c | 13 +++++++++++++
 source/interpreter/tokens.c |  2 +-
 source/interpreter/vars.c   | 18 ++++++++++++++----
 4 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/source/interpreter/arrays.c b/source/interpreter/arrays.c
index dad69ca..20feadd 100644
--- a/source/interpreter/arrays.c
+++ b/source/interpreter/arrays.c
@@ -27,7 +27,7 @@ void free_mem_arr(struct arrays* a){
 
 void* get_init_new_arr(struct arrays* a, u32 size1, u32 size2, int type){
 	u32* new_arr = (u32*)&((union value*)a->arr_data)[a->arr_data_next];
-	int size = size1;
+	uint64_t size = size1;
 	if (size2 != ARR_DIM2_UNUSED){
 		size *= size2;
 	}
@@ -41,7 +41,7 @@ void* get_init_new_arr(struct arrays* a, u32 size1, u32 size2, int type){
 	// fill with empty elements
 	// Note: Treats every array as 1D - this is safe because memory is contiguous
 	union value* new_arr_dat = &((union value*)new_arr)[2];
-	for (int i = 0; i < size; ++i){
+	for (uint64_t i = 0; i < size; ++i){
 		if (type & VAR_NUMBER){
 			new_arr_dat[i].number = 0;
 		} else if (type & VAR_STRING){
diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 616c262..c5fd440 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -326,6 +326,10 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
 					idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
 					p->stack.stack_i -= r->argcount;
+					if (r->argcount == 2 && b == ARR_DIM2_UNUSED){
+						r->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y; // -1 is not a subscript
+						break;
+					}
 					
 					union value* entry = get_arr_entry_via_ptr(&p->vars, &v->value, a, b, v->type);
 					if (!entry){
@@ -376,6 +380,10 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
 					idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
 					p->stack.stack_i -= r->argcount;
+					if (r->argcount == 2 && b == ARR_DIM2_UNUSED){
+						r->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y; // -1 is not a subscript
+						break;
+					}
 					
 					union value* val = get_arr_entry(&p->vars, var.name, var.len, var.type | VAR_ARRAY, a, b);
 					if (!val){
@@ -402,6 +410,11 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
 				idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
 				p->stack.stack_i -= r->argcount;
+				if ((s32)a < 0 || (r->argcount == 2 && (s32)b < 0)){
+					r->error = ERR_OUT_OF_RANGE;
+					break;
+				}
+				p->vars.error = ERR_NONE; // may be set by an earlier failure
 				
 				iprintf("name=");
 				if (data >= 'A'){
diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 5ce8976..66a36a0 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -876,7 +876,7 @@ int tok_code(struct tokenizer* state){
 					if (is_array_type) t |= VAR_ARRAY;
 					
 					struct named_var* v = get_var(&state->system->vars, &state->source->data[state->tokens[i].ofs], len, t);
-					if (state->system->vars.error != ERR_NONE){
+					if (!v){
 						return state->system->vars.error;
 					}
 //					iprintf("var %p: type=%d name=%s data=%d\n", (void*)v, v->type, v->name, v->value.number);
diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index 4d082ce..9ee7b0a 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -92,6 +92,11 @@ struct named_var* get_new_arr_var(struct variables* v, char* name, u32 len, enum
 	// Or if value was CLEARed, so it is OK to re-generate array
 	if (var->type == VAR_EMPTY
 		|| (v->clear_values && var->value.ptr == NULL)){
+		void* arr = get_init_new_arr(v->arrs, dim1, dim2, type);
+		if (!arr){
+			v->error = ERR_OUT_OF_MEMORY;
+			return NULL;
+		}
 		++v->var_count;
 		// set var type
 		var->type = type;
@@ -105,7 +110,7 @@ struct named_var* get_new_arr_var(struct variables* v, char* name, u32 len, enum
 		}
 		
 		// set var ptr
-		var->value.ptr = get_init_new_arr(v->arrs, dim1, dim2, type);
+		var->value.ptr = arr;
 		return var;
 	} else {
 		// array already exists!
@@ -165,10 +170,15 @@ union value* get_arr_entry_via_ptr(struct variables* v, union value* arr, u32 ix
 		}
 	}
 	// array exists and is stored in ptr
+	u32 size2 = arr_size(arr->ptr, ARR_DIM2);
+	if (size2 == ARR_DIM2_UNUSED){
+		size2 = 1;
+	}
+	if (iy == ARR_DIM2_UNUSED){
+		iy = 0;
+	}
 	if (ix < arr_size(arr->ptr, ARR_DIM1)){
-		if (iy == ARR_DIM2_UNUSED){
-			return arr_entry(arr->ptr, ix, 0);
-		} else if (iy < arr_size(arr->ptr, ARR_DIM2)){
+		if (iy < size2){
 			return arr_entry(arr->ptr, ix, iy);
 		} else {
 			v->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y;
-- 
2.43.0


From 4676bb4271dda0e51dd26e6b8236e9fc90208d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 016/100] fix: modulo and negation of the smallest number

---
 source/interpreter/operators.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index 38d9e0c..cf8c120 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -128,7 +128,7 @@ void op_negate(struct ptc* p){
 	
 	fixp x = VALUE_NUM(a);
 
-	stack_push(s, (struct stack_entry){VAR_NUMBER, {-x}});
+	stack_push(s, (struct stack_entry){VAR_NUMBER, {(fixp)-(u32)x}}); // the minimum has no positive counterpart
 }
 
 void op_assign(struct ptc* p){
@@ -286,7 +286,8 @@ void op_modulo(struct ptc* p){
 	
 	if (y == 0) ERROR(ERR_DIVIDE_BY_ZERO);
 	
-	stack_push(s, (struct stack_entry){VAR_NUMBER, {x % y}});
+	// x % -1 is always 0, but computing it traps for the minimum
+	stack_push(s, (struct stack_entry){VAR_NUMBER, {y == -1 ? 0 : x % y}});
 }
 
 void op_and(struct ptc* p){
-- 
2.43.0


From add51e55e787ab0c37f875b342ffc227fe9ab31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 017/100] fix: math functions whose result does not exist or
 does not fit

---
 source/interpreter/mathptc.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/source/interpreter/mathptc.c b/source/interpreter/mathptc.c
index 97dba64..3c1199e 100644
--- a/source/interpreter/mathptc.c
+++ b/source/interpreter/mathptc.c
@@ -4,6 +4,7 @@
 #include "error.h"
 #include "system.h"
 
+#include <limits.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -82,7 +83,7 @@ void func_pow(struct ptc* p){
 	float f = powf(pow_b/4096.0f, pow_e/4096.0f);
 	iprintf("%f", f);
 
-	if (isinf(f)){
+	if (isinf(f) || isnan(f)){
 		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
 	} else if (f >= 524288.0f || f <= -524288.0f) {
 		ERROR(ERR_OVERFLOW);
@@ -108,7 +109,12 @@ void func_rad(struct ptc* p){
 void func_deg(struct ptc* p){
 	struct stack_entry* rad = stack_pop(&p->stack);
 	
-	STACK_RETURN_NUM(func_deg_internal(VALUE_NUM(rad)));
+	fixp r = VALUE_NUM(rad);
+	int64_t deg = (int64_t)r * INT_TO_FP(180) / FIXP_PI;
+	if (deg > INT_MAX || deg < INT_MIN){
+		ERROR(ERR_OVERFLOW);
+	}
+	STACK_RETURN_NUM(func_deg_internal(r));
 }
 
 // separate to make testing easier
@@ -145,7 +151,12 @@ void func_cos(struct ptc* p){
 void func_tan(struct ptc* p){
 	struct stack_entry* rad = stack_pop(&p->stack);
 	
-	STACK_RETURN_NUM(func_tan_internal(VALUE_NUM(rad)));
+	fixp r = VALUE_NUM(rad);
+	double t = tan(r/4096.0);
+	if (t >= 524288.0 || t < -524288.0){
+		ERROR(ERR_OVERFLOW);
+	}
+	STACK_RETURN_NUM(func_tan_internal(r));
 }
 
 void func_atan(struct ptc* p){
@@ -195,13 +206,21 @@ fixp func_exp_internal(fixp value){
 void func_sqr(struct ptc* p){
 	struct stack_entry* val = stack_pop(&p->stack);
 	
-	STACK_RETURN_NUM(func_sqr_internal(VALUE_NUM(val)));
+	fixp v = VALUE_NUM(val);
+	if (v < 0){
+		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
+	}
+	STACK_RETURN_NUM(func_sqr_internal(v));
 }
 
 void func_exp(struct ptc* p){
 	struct stack_entry* val = stack_pop(&p->stack);
 	
-	STACK_RETURN_NUM(func_exp_internal(VALUE_NUM(val)));
+	fixp v = VALUE_NUM(val);
+	if (exp(v/4096.0) >= 524288.0){
+		ERROR(ERR_OVERFLOW);
+	}
+	STACK_RETURN_NUM(func_exp_internal(v));
 }
 
 
-- 
2.43.0


From 60665dd2a617a9742ec7daa34c2a02cec6b4bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 018/100] fix: report running out of string memory everywhere

---
 source/extension/sbc_memory.c  |  1 +
 source/interpreter/data.c      |  5 +++++
 source/interpreter/operators.c | 22 ++++++++++++++--------
 source/interpreter/strfuncs.c  |  5 +++++
 source/subsystem/background.c  |  1 +
 source/subsystem/console.c     |  2 ++
 source/subsystem/resources.c   |  3 +++
 source/subsystem/sysvars.c     |  3 +++
 8 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index 1752027..cc411d4 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -300,6 +300,7 @@ void func_addr(struct ptc* p){
 
 void func_ptr(struct ptc* p){
 	struct string* out_str = get_new_str(&p->strs);
+	if (!out_str) ERROR(ERR_OUT_OF_MEMORY);
 	
 	fixp ptr = STACK_REL_NUM(-1);
 	--p->stack.stack_i;
diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index a384d64..a76ce3d 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -16,6 +16,10 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 	if (dest->type == (VAR_VARIABLE | VAR_STRING)){
 		// Create new string
 		struct string* s = get_new_str(&p->strs);
+		if (!s){
+			p->exec.error = ERR_OUT_OF_MEMORY;
+			return READ_ONE_ERR;
+		}
 		// Remove a use if variable had a string aleady
 		value_str(dest);
 		
@@ -104,6 +108,7 @@ void cmd_read(struct ptc* p){
 		
 		int read = read_one_u8(p, data_src, block_size - p->exec.data_offset, ARG(i));
 		if (read == READ_ONE_ERR){
+			if (p->exec.error) return; // more specific error
 			ERROR(ERR_READ_FAILURE);
 		}
 		p->exec.data_offset += read;
diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index cf8c120..7451c0a 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -33,11 +33,14 @@ void op_add(struct ptc* p){
 		struct string* z = get_new_str(&p->strs);
 		struct string* x = value_str(a);
 		struct string* y = value_str(b);
-		z->uses = 1;
+		if (!z){
+			ERROR(ERR_OUT_OF_MEMORY);
+		}
 		
 		if (str_len(x) + str_len(y) > MAX_STRLEN){
 			ERROR(ERR_STRING_TOO_LONG);
 		}
+		z->uses = 1;
 		
 		str_concat(x, y, z);
 		
@@ -78,13 +81,16 @@ void op_mult(struct ptc* p){
 		// must be done first to keep uses correct
 		struct string* y = get_new_str(&p->strs);
 		struct string* x = value_str(a);
+		if (!y){
+			ERROR(ERR_OUT_OF_MEMORY);
+		}
 		
+		if ((uint64_t)count * str_len(x) > MAX_STRLEN){
+			ERROR(ERR_STRING_TOO_LONG);
+		}
+		if (!str_len(x)) count = 0;
 		y->uses = 1;
 		y->len = 0; // start empty
-		if (count * str_len(x) > MAX_STRLEN){
-			p->exec.error = ERR_STRING_TOO_LONG;
-			return;
-		}
 		
 		for (int i = 0; i < count; ++i){
 			str_concat(y, x, y);
@@ -150,6 +156,9 @@ void op_assign(struct ptc* p){
 		assert(dest); // var must exist
 		assert(*dest); // must contain a valid string already
 		// char dest_old_type = (*dest)->type;
+		if (!new_alloc && (src->type == BC_STRING || src == &p->res.mem_str)){
+			ERROR(ERR_OUT_OF_MEMORY); // failed to alloc string
+		}
 		
 		if (is_dyn_str(*dest)){
 			// dest is dynamic: we replace it here, so reduce uses count
@@ -161,9 +170,6 @@ void op_assign(struct ptc* p){
 			*dest = src;
 			(*dest)->uses++;
 		} else if (src->type == BC_STRING){
-			if (!new_alloc) {
-				ERROR(ERR_OUT_OF_MEMORY); // failed to alloc string
-			}
 			str_copy(src, new_alloc);
 			++new_alloc->uses;
 			*dest = new_alloc;
diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index ea3bb84..ff83db3 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -24,6 +24,7 @@ void func_mid(struct ptc* p){
 	
 	// Must be done first to ensure uses are kept correctly
 	struct string* dest = get_new_str(&p->strs);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	
 	int start;
 	int len;
@@ -84,6 +85,7 @@ void func_str(struct ptc* p){
 	fixp n = STACK_REL_NUM(-1);
 	
 	struct string* s = get_new_str(&p->strs);
+	if (!s) ERROR(ERR_OUT_OF_MEMORY);
 	
 	fixp_to_str(n, s);
 	s->uses = 1;
@@ -156,6 +158,7 @@ void func_chr(struct ptc* p){
 void func_subst(struct ptc* p){
 	// Note: must be allocated here to ensure use count of str, repl are included
 	struct string* dest = get_new_str(&p->strs);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 
 	// argument validation
 	int start;
@@ -203,6 +206,7 @@ void _func_substring(struct ptc* p, bool right){
 
 	// Must be done first to ensure uses are kept correctly
 	struct string* dest = get_new_str(&p->strs);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 
 	int count;
 
@@ -243,6 +247,7 @@ void func_hex(struct ptc* p){
 	
 	// Must be done first to ensure uses are kept correctly
 	struct string* dest = get_new_str(&p->strs);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	
 	int num;
 	int digits = 0;
diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index a023580..d83c003 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -228,6 +228,7 @@ void cmd_bgread(struct ptc* p){
 			*tile = INT_TO_FP(tiledata);
 		} else {
 			struct string* dest = get_new_str(&p->strs);
+			if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 			void** tile = ARG(3)->value.ptr; // pointer to string (which is itself a pointer)
 //			fixp_to_str(INT_TO_FP(tiledata), dest);
 			dest->ptr.s[0] = hex_digits[(tiledata & 0xF000) >> 12];
diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 08e9ba6..2b85027 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -378,6 +378,7 @@ void cmd_input(struct ptc* p){
 			} else if (e->type == (VAR_STRING | VAR_VARIABLE)){
 				if (c == ',' || c == '\0' || out_i >= CONSOLE_WIDTH){
 					struct string* s = get_new_str(&p->strs);
+					if (!s) ERROR(ERR_OUT_OF_MEMORY);
 					
 					if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
 						(*(struct string**)e->value.ptr)->uses--;
@@ -440,6 +441,7 @@ void cmd_linput(struct ptc* p){
 
 	// Now store the result to a new string
 	struct string* s = get_new_str(&p->strs);
+	if (!s) ERROR(ERR_OUT_OF_MEMORY);
 	
 	if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
 		(*(struct string**)e->value.ptr)->uses--;
diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 1f93206..36c0daa 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -896,6 +896,7 @@ void cmd_chrinit(struct ptc* p){
 void cmd_chrread(struct ptc* p){
 	// CHRREAD resource$ id var$
 	struct string* dest = get_new_str(&p->strs);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	// Note: If uses is never set to 1, then this string is available for taking again
 	// (no resource cleanup needed here)
 	void* res_str = value_str(ARG(0));
@@ -1216,6 +1217,7 @@ void sys_result(struct ptc* p){
 
 void sys_package(struct ptc* p){
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	int i = 0;
@@ -1235,6 +1237,7 @@ void sys_package(struct ptc* p){
 
 void sys_prgname(struct ptc* p){
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = strlen(p->res.prgname);
diff --git a/source/subsystem/sysvars.c b/source/subsystem/sysvars.c
index 5fd0eb4..8e2dbb8 100644
--- a/source/subsystem/sysvars.c
+++ b/source/subsystem/sysvars.c
@@ -3,6 +3,7 @@
 #include "strs.h"
 #include "system.h"
 #include "interpreter/stack.h"
+#include "error.h"
 
 #include <time.h>
 
@@ -47,6 +48,7 @@ void sys_date(struct ptc* p){
 	int year = tm->tm_year + 1900;
 	
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = 10;
@@ -75,6 +77,7 @@ void sys_time(struct ptc* p){
 	int sec = tm->tm_sec;
 	
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = 8;
-- 
2.43.0


From e4734efee1e5f07e2d325055d16dc5b4f4983fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 019/100] fix: string functions with negative or huge positions
 and wide strings

---
 source/interpreter/strfuncs.c | 30 ++++++++++++++++--------------
 source/interpreter/strs.c     |  7 +++++--
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index ff83db3..9fb9241 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -34,11 +34,11 @@ void func_mid(struct ptc* p){
 	STACK_REL_INT_MIN(-1,0,len);
 	s->stack_i -= 3;
 	
-	s16 max_len = (s16)str_len(str) - (s16)start;
+	int max_len = (int)str_len(str) - start;
 	if (max_len <= 0){
 		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = empty_str}});
 		return;
-	} else if (max_len <= (s16)len){
+	} else if (max_len <= len){
 		len = max_len;
 	}
 	
@@ -62,9 +62,9 @@ void func_val(struct ptc* p){
 //	bool negate = false;
 	fixp v;
 
-	u8 first_char = num_str[0];
+	u8 first_char = len > 0 ? num_str[0] : 0;
 	if (first_char == '&'){
-		u8 second_char = num_str[1];
+		u8 second_char = len > 1 ? num_str[1] : 0;
 		int base = 0;
 		if (second_char == 'H'){
 			base = 16; // parse as hex
@@ -106,6 +106,7 @@ void func_instr(struct ptc* p){
 	struct stack_entry* string = stack_pop(s);
 	void* str = value_str(string);
 	void* sub = value_str(substring);
+	if (start < 0) ERROR(ERR_OUT_OF_RANGE);
 	
 	int len_string = str_len(str);
 	int len_substring = str_len(sub);
@@ -173,15 +174,16 @@ void func_subst(struct ptc* p){
 		count = len; // replaces all if less than max
 	}
 	int repl_len = str_len(repl);
+	int remaining = len - start - count;
+	if (remaining < 0) remaining = 0;
+	if (start + repl_len + remaining > MAX_STRLEN) ERROR(ERR_STRING_TOO_LONG);
 	// actual copying
 	dest->uses = 1;
-	if (start + repl_len > MAX_STRLEN) ERROR(ERR_STRING_TOO_LONG);
 
 	str_copy_buf(str_at(str, 0), dest->ptr.s, str_type(str) | (str_type(dest) << STR_COPY_DEST), start);
 //	iprintf("%s\n",dest->ptr.s);
 	str_copy_buf(str_at(repl, 0), str_at(dest, start), str_type(repl) | (str_type(dest) << STR_COPY_DEST), str_len(repl));
 //	iprintf("%s\n",dest->ptr.s);
-	int remaining = str_len(str)-start-count;
 	if (remaining > 0)
 		str_copy_buf(str_at(str, start+count), str_at(dest, start + str_len(repl)), str_type(str) | (str_type(dest) << STR_COPY_DEST), remaining);
 //	iprintf("%s\n",dest->ptr.s);
@@ -295,18 +297,18 @@ void cmd_dtread(struct ptc* p){
 		if (format[i] == '/' && c != '/') ERROR(ERR_SYNTAX);
 	}
 
-	*year = (*((u8*)str_at(date_str,0)) - '0') * 1000;
-	*year += (*((u8*)str_at(date_str,1)) - '0') * 100;
-	*year += (*((u8*)str_at(date_str,2)) - '0') * 10;
-	*year += (*((u8*)str_at(date_str,3)) - '0');
+	*year = (str_at_char(date_str,0) - '0') * 1000;
+	*year += (str_at_char(date_str,1) - '0') * 100;
+	*year += (str_at_char(date_str,2) - '0') * 10;
+	*year += (str_at_char(date_str,3) - '0');
 	*year <<= FIXPOINT;
 	
-	*month = (*((u8*)str_at(date_str,5)) - '0') * 10;
-	*month += (*((u8*)str_at(date_str,6)) - '0') * 1;
+	*month = (str_at_char(date_str,5) - '0') * 10;
+	*month += (str_at_char(date_str,6) - '0') * 1;
 	*month <<= FIXPOINT;
 	
-	*day = (*((u8*)str_at(date_str,8)) - '0') * 10;
-	*day += (*((u8*)str_at(date_str,9)) - '0') * 1;
+	*day = (str_at_char(date_str,8) - '0') * 10;
+	*day += (str_at_char(date_str,9) - '0') * 1;
 	*day <<= FIXPOINT;
 }
 
diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index b9a1dcb..70a5736 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -520,6 +520,7 @@ u16 str_at_wide(const void* src, const u16 index){
 // Gets the small character value in the string at the given index.
 u16 str_at_char(const void* src, const u16 index){
 	assert(src);
+	int c; // characters without an 8-bit form are returned unchanged
 	
 	struct string* s = (struct string*)src;
 	
@@ -527,14 +528,16 @@ u16 str_at_char(const void* src, const u16 index){
 		case STRING_CHAR:
 			return s->ptr.s[index];
 		case STRING_WIDE:
-			return s->ptr.w[index];
+			c = to_char(s->ptr.w[index]);
+			return c >= 0 ? c : s->ptr.w[index];
 		case BC_LABEL_STRING:
 		case BC_LABEL:
 		case BC_STRING:
 		case STRING_INLINE_CHAR:
 			return ((u8*)src)[2+index];
 		case STRING_INLINE_WIDE:
-			return ((u16*)src)[1+index];
+			c = to_char(((u16*)src)[1+index]);
+			return c >= 0 ? c : ((u16*)src)[1+index];
 		default:
 			iprintf("Unimplemented/Not a valid string type! (str_at_char)\n");
 			abort();
-- 
2.43.0


From c36f4ca59af67b36edce9396ab9b9bb81f9ba6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 020/100] fix: string memory leaked by READ, BGREAD, CHRREAD,
 INPUT, unused arguments and errors

---
 source/interpreter/data.c     |  5 ++---
 source/interpreter/runner.c   | 10 +++++++++-
 source/interpreter/strs.h     |  5 +++++
 source/interpreter/vars.c     | 24 ++++++++++++++++++++++++
 source/interpreter/vars.h     |  4 ++++
 source/subsystem/background.c |  1 +
 source/subsystem/console.c    | 14 ++++++--------
 source/subsystem/resources.c  |  1 +
 8 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index a76ce3d..bdb1a8a 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -20,9 +20,6 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 			p->exec.error = ERR_OUT_OF_MEMORY;
 			return READ_ONE_ERR;
 		}
-		// Remove a use if variable had a string aleady
-		value_str(dest);
-		
 		// create destination and copy characters
 		for (; i < len && src[i] != BC_DATA_DELIM; ++i){
 			if (src[i] == BC_DATA_ERROR){
@@ -33,6 +30,8 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 		s->len = i - start;
 		
 		// Assign new string to variable
+		// Remove a use if variable had a string already
+		release_str(*(struct string**)dest->value.ptr);
 		(*(struct string**)dest->value.ptr) = s;
 		s->uses = 1;
 	} else if (dest->type == (VAR_VARIABLE | VAR_NUMBER)){
diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index c5fd440..77f8bbc 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -38,12 +38,18 @@ typedef void(*ptc_call)(struct ptc*);
 
 void ptc_stub(struct ptc* p){
 	// Stub function consumes all arguments and does nothing
+	for (int i = 0; i < p->stack.stack_i; ++i){
+		if (ARG(i)->type & VAR_STRING) value_str(ARG(i));
+	}
 	p->stack.stack_i = 0;
 }
 
 void ptc_func_stub(struct ptc* p){
 	// Stub function consumes arguments provided and returns zero
-	p->stack.stack_i -= p->exec.argcount;
+	for (int i = 0; i < p->exec.argcount; ++i){
+		struct stack_entry* e = stack_pop(&p->stack);
+		if (e->type & VAR_STRING) value_str(e);
+	}
 	STACK_RETURN_INT(0);
 }
 
@@ -180,6 +186,8 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 	r->data_index = 0;
 	r->data_offset = 0;
 	p->stack.stack_i = 0;
+	// Strings on the stack of a program that ended with an error are lost
+	recount_str(&p->vars);
 
 	while (r->index < r->code.size && !p->exec.error){
 		if (p->stack.stack_i >= VALUE_STACK_SIZE){
diff --git a/source/interpreter/strs.h b/source/interpreter/strs.h
index 6bbddea..27297a4 100644
--- a/source/interpreter/strs.h
+++ b/source/interpreter/strs.h
@@ -73,6 +73,11 @@ static inline bool is_dyn_str(struct string* s){
 	return s->type == STRING_CHAR || s->type == STRING_WIDE;
 }
 
+/// Drops one reference to a string, if it is of a kind that counts them.
+static inline void release_str(struct string* s){
+	if (s && is_dyn_str(s)) s->uses--;
+}
+
 /// Checks if character is a lowercase letter ('a'-'z')
 bool is_lower(char c);
 /// Checks if character is an uppercase letter ('A'-'Z')
diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index 9ee7b0a..e2b944c 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -45,6 +45,30 @@ void reset_var(struct variables* v){
 	}
 }
 
+static void count_str(void* s){
+	if (s && is_dyn_str(s)) ((struct string*)s)->uses++;
+}
+
+void recount_str(struct variables* v){
+	if (!v->strs) return;
+	
+	reset_str(v->strs);
+	for (uint_fast16_t i = 0; i < v->vars_max; ++i){
+		struct named_var* var = &v->vars[i];
+		if (var->type == VAR_STRING){
+			count_str(var->value.ptr);
+		} else if (var->type == (VAR_STRING | VAR_ARRAY) && var->value.ptr){
+			size_t size = arr_size(var->value.ptr, ARR_DIM1);
+			if (arr_size(var->value.ptr, ARR_DIM2) != ARR_DIM2_UNUSED){
+				size *= arr_size(var->value.ptr, ARR_DIM2);
+			}
+			for (size_t k = 0; k < size; ++k){
+				count_str(arr_data(var->value.ptr)[k].ptr);
+			}
+		}
+	}
+}
+
 /// Freee memory for vars
 void free_mem_var(struct variables* v){
 	free_log("free_mem_var", v->vars);
diff --git a/source/interpreter/vars.h b/source/interpreter/vars.h
index 47a5d17..8d23d9a 100644
--- a/source/interpreter/vars.h
+++ b/source/interpreter/vars.h
@@ -100,5 +100,9 @@ union value* get_arr_entry(struct variables* v, char*, u32, enum types type, u32
 // Gets a pointer to a value within an array, but the array is passed via value pointer
 union value* get_arr_entry_via_ptr(struct variables* v, union value* arr, u32 ix, u32 iy, int type);
 
+/// Sets the use count of every string to the number of variables and array
+/// elements containing it. Only valid while no temporary strings are in use.
+void recount_str(struct variables* v);
+
 struct named_var* get_new_arr_var(struct variables* v, char* name, u32 len, enum types type, u32 dim1, u32 dim2);
 
diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index d83c003..40a5f87 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -237,6 +237,7 @@ void cmd_bgread(struct ptc* p){
 			dest->ptr.s[3] = hex_digits[(tiledata & 0x000F) >> 0];
 			dest->len = 4;
 			dest->uses = 1;
+			release_str(*tile);
 			*tile = dest;
 		}
 	} else {
diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 2b85027..b8e391b 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -314,7 +314,7 @@ void cmd_input(struct ptc* p){
 		if (ARG(1)->type == STACK_OP && ARG(1)->value.number == OP_SEMICOLON){
 			// check prompt string
 			if (ARG(0)->type & VAR_STRING){
-				prompt_str = ARG(0)->value.ptr;
+				prompt_str = VALUE_STR(ARG(0)); // released after last use
 				index = 2; // variables start here
 			} else {
 				ERROR(ERR_TYPE_MISMATCH);
@@ -380,9 +380,7 @@ void cmd_input(struct ptc* p){
 					struct string* s = get_new_str(&p->strs);
 					if (!s) ERROR(ERR_OUT_OF_MEMORY);
 					
-					if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
-						(*(struct string**)e->value.ptr)->uses--;
-					}
+					release_str(*(struct string**)e->value.ptr);
 					(*(struct string**)e->value.ptr) = s;
 					
 					// TODO:TEST:LOW Check that wide strings work here
@@ -418,6 +416,7 @@ void cmd_input(struct ptc* p){
 			con_reprompt(con, prompt_str);
 		}
 	}
+	if (prompt_str) value_str(ARG(0));
 	con_newline(con, true); // from user entering the line successfully.
 }
 
@@ -428,7 +427,7 @@ void cmd_linput(struct ptc* p){
 	struct stack_entry* e;
 	if (p->stack.stack_i == 3){
 		// check prompt string
-		prompt_str = ARG(0)->value.ptr;
+		prompt_str = VALUE_STR(ARG(0)); // released after last use
 		e = ARG(2);
 	} else {
 		e = ARG(0);
@@ -443,9 +442,7 @@ void cmd_linput(struct ptc* p){
 	struct string* s = get_new_str(&p->strs);
 	if (!s) ERROR(ERR_OUT_OF_MEMORY);
 	
-	if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
-		(*(struct string**)e->value.ptr)->uses--;
-	}
+	release_str(*(struct string**)e->value.ptr);
 	(*(struct string**)e->value.ptr) = s;
 	
 	// If string defaulted to STRING_CHAR, promote it to STRING_WIDE as needed
@@ -469,6 +466,7 @@ void cmd_linput(struct ptc* p){
 			s->ptr.s[j] = to_char(output[j]);
 		}
 	}
+	if (prompt_str) value_str(ARG(0));
 	con_newline(con, true); // from user entering the line successfully.
 }
 
diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 36c0daa..a3256da 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -921,6 +921,7 @@ void cmd_chrread(struct ptc* p){
 		dest->type = STRING_CHAR; // force smaller type is always safe
 		dest->len = 64;
 		dest->uses = 1;
+		release_str(*out);
 		*out = dest;
 	} else {
 		ERROR(ERR_INVALID_RESOURCE_TYPE);
-- 
2.43.0


From 4ab90fd677b94b636180a42c9b724c59f4820efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 021/100] fix: READ past the last DATA item, long and padded
 numbers

---
 source/interpreter/data.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index bdb1a8a..a37c2e2 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -35,7 +35,6 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 		(*(struct string**)dest->value.ptr) = s;
 		s->uses = 1;
 	} else if (dest->type == (VAR_VARIABLE | VAR_NUMBER)){
-		u8 conversion[16] = {0}; // this buffer size is very arbitrary
 		// skip leading spaces, but only for numbers
 		// strings may contain spaces when quoted
 		while (i < len && src[i] == ' '){
@@ -45,19 +44,24 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 			return READ_ONE_ERR;
 		}
 		// Read number!
-		for (; i < len && i - start < 16; ++i){
+		size_t num_start = i;
+		for (; i < len; ++i){
 			u8 c = src[i];
 			if (is_number(c) || c == '-' || c == '.'){
-				conversion[i - start] = c;
+				iprintf(":%c", c);
 			} else if (c == BC_DATA_DELIM){ 
 				break; // stop reading here
 			} else {
 				return READ_ONE_ERR;
 			}
-			iprintf(":%c", conversion[i - start]);
 		}
 		// Convert!
-		*((fixp*)dest->value.ptr) = u8_to_num(conversion, i - start);
+		int64_t number = u8_to_num((u8*)src + num_start, i - num_start);
+		if (number < INT32_MIN || number > INT32_MAX){
+			p->exec.error = ERR_OVERFLOW;
+			return READ_ONE_ERR;
+		}
+		*((fixp*)dest->value.ptr) = number;
 	} else {
 		return READ_ONE_ERR;
 	}
@@ -100,6 +104,9 @@ void cmd_read(struct ptc* p){
 	iprintf("READ from: ");
 	// Iterate over variables on stack
 	for (int i = 0; i < p->stack.stack_i; ++i){
+		if (p->exec.data_index == BC_SCAN_NOT_FOUND){
+			ERROR(ERR_OUT_OF_DATA); // ran out in the middle of this READ
+		}
 		block_size = data_block[1];
 		iprintf("src=%d size=%d", (int)p->exec.data_index, block_size);
 		iprintf(" data=\"%.*s\"", block_size, &data_block[DATA_DATA_OFS + p->exec.data_offset]);
@@ -119,7 +126,9 @@ void cmd_read(struct ptc* p){
 		if (p->exec.data_offset >= block_size){
 			// search for next data block
 			find_data(p);
-			data_block = (u8*)&p->exec.code.data[p->exec.data_index];
+			if (p->exec.data_index != BC_SCAN_NOT_FOUND){
+				data_block = (u8*)&p->exec.code.data[p->exec.data_index];
+			}
 		}
 	}
 	iprintf("\n");
-- 
2.43.0


From ac0cf77e1a2575cfb392345b9ce3c8921b0fbc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 022/100] fix: VAL of numbers that do not fit

---
 source/interpreter/strfuncs.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index 9fb9241..f852ef3 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -60,7 +60,7 @@ void func_val(struct ptc* p){
 	str_char_copy(str, num_str);
 	int len = str_len(str);
 //	bool negate = false;
-	fixp v;
+	int64_t v;
 
 	u8 first_char = len > 0 ? num_str[0] : 0;
 	if (first_char == '&'){
@@ -74,11 +74,13 @@ void func_val(struct ptc* p){
 			ERROR(ERR_SYNTAX);
 		}
 		v = u8_to_number(num_str + 2, len-2, base, false);
+		if (v < 0 || v > UINT32_MAX) ERROR(ERR_OVERFLOW); // more than 20 bits
 	} else {
 		v = u8_to_num(num_str, len);
+		if (v < INT32_MIN || v > INT32_MAX) ERROR(ERR_OVERFLOW);
 	}
 	
-	stack_push(s, (struct stack_entry){VAR_NUMBER, {v}});
+	stack_push(s, (struct stack_entry){VAR_NUMBER, {(fixp)v}});
 }
 
 void func_str(struct ptc* p){
-- 
2.43.0


From 9c58667da37f82126a05456de21611d3fb62cd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 023/100] fix: CLEAR left FOR loops counting in freed variables

---
 source/subsystem/variables.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/subsystem/variables.c b/source/subsystem/variables.c
index f40f36e..c4de703 100644
--- a/source/subsystem/variables.c
+++ b/source/subsystem/variables.c
@@ -4,6 +4,15 @@ void cmd_clear(struct ptc* p){
 	reset_var(&p->vars);
 	reset_str(&p->strs);
 	reset_arr(&p->arrs);
+	
+	// Loops counting with a cleared variable can not continue
+	u32 kept = 0;
+	for (u32 i = 0; i < p->calls.stack_i; ++i){
+		if (p->calls.entry[i].type != CALL_FOR){
+			p->calls.entry[kept++] = p->calls.entry[i];
+		}
+	}
+	p->calls.stack_i = kept;
 }
 
 void cmd_swap(struct ptc* p){
-- 
2.43.0


From a92e7ff55f21d5259809a3e4b33d43deaa08edfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 024/100] fix: RUN and EXEC kept the call stack of the old
 program

---
 source/interpreter/runner.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 77f8bbc..eed3d21 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -613,6 +613,7 @@ void cmd_exec(struct ptc* p){
 	p->exec.data_index = 0;
 	p->exec.data_offset = 0;
 	p->exec.argcount = 0;
+	p->calls.stack_i = 0; // belongs to the old program
 //	p->exec.prg = prog;
 	p->res.result = 1;
 }
@@ -627,6 +628,7 @@ void cmd_run(struct ptc* p){
 	p->exec.data_index = 0;
 	p->exec.data_offset = 0;
 	p->exec.argcount = 0;
+	p->calls.stack_i = 0; // belongs to the old program
 }
 
 // For now this is a direct map of internal error codes.
-- 
2.43.0


From f1ca7d9c2c30d09106944f0390327d2b684896a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 025/100] fix: SWAP of MEM$ gave its storage to the other
 variable

---
 source/subsystem/variables.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/subsystem/variables.c b/source/subsystem/variables.c
index c4de703..c590e63 100644
--- a/source/subsystem/variables.c
+++ b/source/subsystem/variables.c
@@ -21,6 +21,17 @@ void cmd_swap(struct ptc* p){
 	struct stack_entry* a = ARG(0);
 	struct stack_entry* b = ARG(1);
 	union value c;
+	
+	if ((a->value.ptr == &p->res.mem_ptr || b->value.ptr == &p->res.mem_ptr) && p->res.mem_ptr == &p->res.mem_str){
+		// The storage of MEM$ itself can not be given to another variable
+		struct string* s = get_new_str(&p->strs);
+		if (!s){
+			ERROR(ERR_OUT_OF_MEMORY);
+		}
+		str_copy(&p->res.mem_str, s);
+		s->uses = 1;
+		p->res.mem_ptr = s;
+	}
 	memcpy(&c, a->value.ptr, sizeof(union value)); // copies from pointed-to number or string
 	memcpy(a->value.ptr, b->value.ptr, sizeof(union value));
 	memcpy(b->value.ptr, &c, sizeof(union value));
-- 
2.43.0


From 44fba02244b14fe941fb0b64a673d692eb24807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 026/100] fix: ACLS lost the variables on errors and used up
 memory

---
 source/system.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/system.c b/source/system.c
index dbbdb59..31b5cc7 100644
--- a/source/system.c
+++ b/source/system.c
@@ -90,8 +90,11 @@ struct labels acls_labels = {0};
 void cmd_acls(struct ptc* p){
 	// copy vars and use a temp variables for this snippet
 	struct runner cur_exec = p->exec; // copy code state
-	struct variables temp_vars = {0};
-	init_mem_var(&temp_vars, 4); //P,I
+	struct named_var acls_vars[4] = {0}; //P,I
+	for (int i = 0; i < 4; ++i){
+		acls_vars[i].type = VAR_EMPTY;
+	}
+	struct variables temp_vars = { .vars = acls_vars, .vars_max = 4 };
 	struct variables vars = p->vars;
 	p->vars = temp_vars;
 	
@@ -102,12 +105,12 @@ void cmd_acls(struct ptc* p){
 	
 	p->exec.error = tokenize(&acls_program, &acls_bc);
 	run(acls_bc, p);
-	if (p->exec.error) return;
-	p->exec = cur_exec;
 	
 	// Restore proper program variable state
 	p->vars = vars;
-	free_mem_var(&temp_vars);
+	enum err_code error = p->exec.error;
+	p->exec = cur_exec;
+	p->exec.error = error;
 }
 
 void cmd_visible(struct ptc* p){
-- 
2.43.0


From 81507ae332c1480c10e44fd6bc6ab07b0c74161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 027/100] fix: INPUT of full lines, partly wrong lines and
 numbers that do not fit

---
 source/subsystem/console.c | 145 +++++++++++++++++++++----------------
 1 file changed, 81 insertions(+), 64 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index b8e391b..8325315 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -207,6 +207,8 @@ u16* shared_input(struct ptc* p){
 	uint_fast8_t keyboard;
 	u16* output = con->text[con->y]; // start of current line
 	u8* outcol = con->color[con->y];
+	// whatever was printed on this line before is not part of the input
+	memset(output, 0, CONSOLE_WIDTH * sizeof(u16));
 
 	uint_fast8_t out_index = 0;
 	uint_fast8_t out_index_max = 0;
@@ -238,7 +240,7 @@ u16* shared_input(struct ptc* p){
 		} else if ((keyboard == 15 || check_pressed(&p->input, BUTTON_ID_Y))){
 			// Copy characters back
 			if (out_index > 0){
-				for (int i = out_index-1; i < (int)out_index_max; ++i){
+				for (int i = out_index-1; i < (int)out_index_max-1; ++i){
 					outcol[i] = outcol[i+1];
 					output[i] = output[i+1];
 				}
@@ -248,7 +250,7 @@ u16* shared_input(struct ptc* p){
 		} else if (keyboard == 67){
 			// Copy characters back
 			if (out_index < out_index_max){
-				for (int i = out_index; i < (int)out_index_max; ++i){
+				for (int i = out_index; i < (int)out_index_max-1; ++i){
 					outcol[i] = outcol[i+1];
 					output[i] = output[i+1];
 				}
@@ -289,8 +291,10 @@ void con_prompt(struct console* con, void* prompt_str){
 	// Displays prompt string
 	if (prompt_str) // only display string if it exists
 		con_puts(con, prompt_str);
+	con_scroll(con); // printing may have left the cursor below the last line
 	con_put(con, to_wide('?'));
 	if (con->x) con_newline(con, true); // only newline if necessary for user to have full line of input
+	con_scroll(con);
 }
 
 void con_reprompt(struct console* con, void* prompt_str){
@@ -300,6 +304,35 @@ void con_reprompt(struct console* con, void* prompt_str){
 	con_prompt(con, prompt_str);
 }
 
+/// Reads a number from part of a line, which may be surrounded by spaces
+///
+/// @return true if it is a number that can be stored
+static bool input_number(const u16* text, int start, int end, fixp* result){
+	u8 digits[CONSOLE_WIDTH];
+	int count = 0;
+	bool any = false, point = false;
+	
+	while (start < end && text[start] == to_wide(' ')) ++start;
+	while (start < end && text[end-1] == to_wide(' ')) --end;
+	for (int i = start; i < end; ++i){
+		u8 c = to_char(text[i]);
+		if (is_number(c)){
+			any = true;
+		} else if (c == '.' && !point){
+			point = true;
+		} else if (c != '-' || count){
+			return false;
+		}
+		digits[count++] = c;
+	}
+	if (!any) return false;
+	
+	int64_t n = u8_to_num(digits, count);
+	if (n < INT32_MIN || n > INT32_MAX) return false;
+	*result = n;
+	return true;
+}
+
 void cmd_input(struct ptc* p){
 	struct console* con = &p->console;
 	// INPUT [prompt;]var[,var...]
@@ -338,77 +371,61 @@ void cmd_input(struct ptc* p){
 		valid = true;
 		output = shared_input(p);
 		if (p->exec.error) break;
-		// scan commas
-		int commas = 0;
-		for (int x = 0; x < CONSOLE_WIDTH; ++x){
-			commas += con_text_getc(con, x, con->y) == to_wide(',');
-		}
-		if (len != commas + 1){
-			valid = false;
-			con_reprompt(con, prompt_str);
-			continue;
+		// find the end of each comma-separated field
+		int field_end[CONSOLE_WIDTH+1];
+		int fields = 0;
+		for (int x = 0; x <= CONSOLE_WIDTH; ++x){
+			bool end_of_line = x == CONSOLE_WIDTH || !output[x];
+			if (end_of_line || output[x] == to_wide(',')){
+				field_end[fields++] = x;
+			}
+			if (end_of_line) break;
 		}
-		u8 conversion_copy[CONSOLE_WIDTH];
-		int prev_i = 0;
-		int out_i = 0;
+		valid = len == fields;
 		
-		for (int i = 0; i < len; ){
+		// check everything before any variable is changed
+		for (int i = 0, start = 0; valid && i < len; start = field_end[i++] + 1){
 			struct stack_entry* e = ARG(index+i);
-			u8 c = to_char(output[out_i]);
-			conversion_copy[out_i++] = c;
+			fixp n;
 			if (e->type == (VAR_NUMBER | VAR_VARIABLE)){
-				// validate first entry is numeric
-				if (is_number(c) || c == '.' || c == '-'){
-				} else if (c == ',' || c == '\0' || c == ' ' || out_i >= CONSOLE_WIDTH){
-					// convert from previous to out_i
-					if (out_i - prev_i - 1 == 0){
-						valid = false;
+				valid = input_number(output, start, field_end[i], &n);
+			} else if (e->type != (VAR_STRING | VAR_VARIABLE)){
+				// invalid argument type
+				ERROR(ERR_UNKNOWN_TYPE);
+			}
+		}
+		
+		// store results to variables
+		for (int i = 0, start = 0; valid && i < len; start = field_end[i++] + 1){
+			struct stack_entry* e = ARG(index+i);
+			if (e->type & VAR_NUMBER){
+				input_number(output, start, field_end[i], e->value.ptr);
+			} else {
+				struct string* s = get_new_str(&p->strs);
+				if (!s) ERROR(ERR_OUT_OF_MEMORY);
+				
+				release_str(*(struct string**)e->value.ptr);
+				(*(struct string**)e->value.ptr) = s;
+				
+				// TODO:TEST:LOW Check that wide strings work here
+				bool require_wide = false;
+				for (int j = start; j < field_end[i]; ++j){
+					if (!is_char(output[j])){
+						require_wide = true;
 						break;
 					}
-					fixp n = u8_to_num(&conversion_copy[prev_i], out_i - prev_i - 1);
-					prev_i = out_i;
-					*(fixp*)e->value.ptr = n; //store result to variable
-					++i;
-					
-				} else {
-					// invalid character
-					valid = false;
-					break;
 				}
-			} else if (e->type == (VAR_STRING | VAR_VARIABLE)){
-				if (c == ',' || c == '\0' || out_i >= CONSOLE_WIDTH){
-					struct string* s = get_new_str(&p->strs);
-					if (!s) ERROR(ERR_OUT_OF_MEMORY);
-					
-					release_str(*(struct string**)e->value.ptr);
-					(*(struct string**)e->value.ptr) = s;
-					
-					// TODO:TEST:LOW Check that wide strings work here
-					bool require_wide = false;
-					for (int j = prev_i; j < out_i; ++j){
-						if (!is_char(output[j])){
-							require_wide = true;
-							break;
-						}
-					}
-					
-					s->type = require_wide ? STRING_WIDE : STRING_CHAR;
-					s->uses = 1;
-					s->len = out_i - prev_i - 1;
-					for (int j = prev_i; j < out_i; ++j){
-						if (require_wide){
-							s->ptr.w[j - prev_i] = output[j];
-						} else {
-							s->ptr.s[j - prev_i] = conversion_copy[j];
-						}
+				
+				s->type = require_wide ? STRING_WIDE : STRING_CHAR;
+				s->uses = 1;
+				s->len = field_end[i] - start;
+				for (int j = start; j < field_end[i]; ++j){
+					if (require_wide){
+						s->ptr.w[j - start] = output[j];
+					} else {
+						s->ptr.s[j - start] = to_char(output[j]);
 					}
-					prev_i = out_i;
-					++i;
 				}
-			} else {
-				// invalid argument type
-				p->exec.error = ERR_UNKNOWN_TYPE;
-				return;
 			}
 		}
 		// Note that this has to be after reading the characters, or the positions get messed up
-- 
2.43.0


From ae2f07dea1a6f63b530dc67033c5307f1d2d0cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 028/100] fix: COLOR accepted values that are no colors

---
 source/subsystem/console.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 8325315..12b7da6 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -151,13 +151,17 @@ void cmd_print(struct ptc* p){
 
 void cmd_color(struct ptc* p){
 	struct console* c = &p->console;
+	int fg, bg;
 	if (p->stack.stack_i == 2){
+		STACK_INT_RANGE(0,0,15,fg);
+		STACK_INT_RANGE(1,0,15,bg);
 		c->col = 0;
-		c->col |= STACK_INT(0); // FG
-		c->col |= STACK_INT(1) << 4; // BG
+		c->col |= fg; // FG
+		c->col |= bg << 4; // BG
 	} else if (p->stack.stack_i == 1){
+		STACK_INT_RANGE(0,0,15,fg);
 		c->col &= ~COL_FG_MASK; // clear FG value
-		c->col |= STACK_INT(0); // FG
+		c->col |= fg; // FG
 	}
 	p->stack.stack_i = 0;
 }
-- 
2.43.0


From 92744095d87b1f1a6553235c8841a8d132bec5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 029/100] fix: SORT of unused arrays, short ranges, repeated
 arrays, and its partition step

---
 source/subsystem/variables.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/source/subsystem/variables.c b/source/subsystem/variables.c
index c590e63..744081d 100644
--- a/source/subsystem/variables.c
+++ b/source/subsystem/variables.c
@@ -59,7 +59,7 @@ typedef bool(*comparison)(union value, union value);
 // based on
 // https://en.wikipedia.org/wiki/Quicksort?useskin=monobook#cite_ref-:2_13-2
 int _partition(union value* data, union value** extra, int start, int end, comparison comp){
-	if (end - start <= 1){
+	if (end - start < 1){
 		return start; // already sorted
 	}
 
@@ -74,7 +74,7 @@ int _partition(union value* data, union value** extra, int start, int end, compa
 		do {
 			--end;
 		} while (comp(pivot, data[end]));
-		if (start >= end) return start;
+		if (start >= end) return end;
 
 		_sort_swap(data, extra, start, end);
 	}
@@ -119,11 +119,17 @@ bool str_rsort_comp(union value a, union value b){
 
 void quick_sort(union value* data, union value** extra, int start, int end, comparison comp){
 	// https://en.wikipedia.org/wiki/Quicksort?useskin=monobook#Hoare_partition_scheme
-	if (end - start <= 1) return;
-
-	int p = _partition(data, extra, start, end, comp);
-	quick_sort(data, extra, start, p, comp);
-	quick_sort(data, extra, p + 1, end, comp);
+	while (end - start >= 1){
+		int p = _partition(data, extra, start, end, comp);
+		// recurse into the smaller part only, so that the depth stays small
+		if (p - start < end - p - 1){
+			quick_sort(data, extra, start, p, comp);
+			start = p + 1;
+		} else {
+			quick_sort(data, extra, p + 1, end, comp);
+			end = p;
+		}
+	}
 }
 
 /// @note Does not correctly handle permuting the same array as is being sorted!
@@ -135,6 +141,13 @@ void _cmd_sort_shared(struct ptc* p, comparison comp){
 		ERROR(ERR_SYNTAX); // 32 is max number of arrays
 	}
 	// SORT start, size, arr, [arr1, arr2, ...]
+	for (int k = 2; k < p->stack.stack_i; ++k){
+		struct stack_entry* e = ARG(k);
+		union value* array = e->value.ptr;
+		if (!array->ptr && !get_arr_entry_via_ptr(&p->vars, array, 0, ARR_DIM2_UNUSED, e->type & (VAR_NUMBER | VAR_STRING))){
+			ERROR(p->vars.error); // could not be created
+		}
+	}
 	union value* data = *(void**)stack_get(&p->stack, 2)->value.ptr;
 //	iprintf("%p\n", (void*)data);
 	int array_min_size = arr_size(data, ARR_DIM1);
@@ -155,6 +168,9 @@ void _cmd_sort_shared(struct ptc* p, comparison comp){
 			// TODO:IMPL:NONE Implement this...? (Is it possible with remaining memory?)
 			ERROR(ERR_SORT_SAME_ARRAY);
 		}
+		for (int j = 3; j < k; ++j){
+			if (extra[j-3] - 2 == extra[k-3]) ERROR(ERR_SORT_SAME_ARRAY);
+		}
 		extra[k-3] += 2; // move past dimension info
 	}
 //	iprintf("%d\n", array_min_size);
-- 
2.43.0


From 4b46cc38508b347db0348a750045c9dd305cc8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 030/100] fix: sprite screens, numbers, sizes and positions
 were not checked

---
 source/subsystem/sprites.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 931b0e3..e282029 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -197,7 +197,8 @@ int get_sprite_chr(struct sprite_info* s){
 }
 
 void cmd_sppage(struct ptc* p){
-	int page = STACK_INT(0);
+	int page;
+	STACK_INT_RANGE(0,0,SCREEN_COUNT-1,page);
 	
 	p->sprites.page = page;
 }
@@ -205,7 +206,8 @@ void cmd_sppage(struct ptc* p){
 void cmd_spclr(struct ptc* p){
 	if (p->stack.stack_i == 1){
 		// SPCLR id
-		int index = STACK_INT(0);
+		int index;
+		STACK_INT_RANGE(0,0,99,index);
 		// disable sprite: no values matter if inactive
 		p->sprites.info[p->sprites.page][index].active = false;
 	} else {
@@ -216,12 +218,16 @@ void cmd_spclr(struct ptc* p){
 	}
 }
 
+static bool is_sprite_size(int size){
+	return size == 8 || size == 16 || size == 32 || size == 64;
+}
+
 void cmd_spset(struct ptc* p){
 	int id;
 	int chr;
 	int pal;
 	STACK_INT_RANGE(0, 0, 99, id);
-	STACK_INT_RANGE(1, 0, (p->sprites.page ? 117 : 512), chr);
+	STACK_INT_RANGE(1, 0, (p->sprites.page ? 117 : 511), chr);
 	STACK_INT_RANGE(2, 0, 15, pal);
 	bool horiz_flip = STACK_INT(3) != 0;
 	bool vert_flip = STACK_INT(4) != 0;
@@ -231,22 +237,30 @@ void cmd_spset(struct ptc* p){
 	int height = 16;
 	if (p->stack.stack_i == 8){
 		// spset id,chr,pal,h,v,prio,w,h
-		// TODO:ERR:MED bounds checking
 		width = STACK_INT(6);
 		height = STACK_INT(7);
+		if (!is_sprite_size(width) || !is_sprite_size(height)){
+			ERROR(ERR_OUT_OF_RANGE);
+		}
 	}
 	// TODO:TEST:MED Validate that this initialization is correct
 	p->sprites.info[p->sprites.page][id] = init_sprite_info(id,chr,pal,horiz_flip,vert_flip,prio,width,height);
 }
 
+// Positions are limited so that distances and collisions do not overflow
+#define SPRITE_POS_MIN (-65536)
+#define SPRITE_POS_MAX 65535
+
 void cmd_spofs(struct ptc* p){
 	int id;
 	fixp x;
 	fixp y;
 	int time;
 	STACK_INT_RANGE(0,0,99,id);
-	x = STACK_NUM(1) & -FIXP_1; // integer only
-	y = STACK_NUM(2) & -FIXP_1;
+	STACK_INT_RANGE(1,SPRITE_POS_MIN,SPRITE_POS_MAX,x);
+	STACK_INT_RANGE(2,SPRITE_POS_MIN,SPRITE_POS_MAX,y);
+	x = INT_TO_FP(x); // integer only
+	y = INT_TO_FP(y);
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
 	if (!s->active) ERROR(ERR_ILLEGAL_FUNCTION_CALL);
 
-- 
2.43.0


From 11caf0fdaa991082d77955bd160ecdeb0fe1e6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 031/100] fix: interpolated sprite changes missed their target

---
 source/subsystem/sprites.c | 40 +++++++++++++++++++++++---------------
 source/subsystem/sprites.h | 11 +++++++++--
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index e282029..0e43a80 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -17,11 +17,11 @@ struct sprite_info init_sprite_info(int id,int chr,int pal,bool horiz,bool vert,
 		id,chr,pal,w,h,prio,horiz,vert,
 		0,0,
 		{ // position
-			0,0,0,0,-1
+			0,0,0,0,-1,0,0
 		},{ // scale
-			INT_TO_FP(1),0,0
+			INT_TO_FP(1),0,-1,INT_TO_FP(1)
 		},{ // angle
-			0,0,0
+			0,0,-1,0
 		},{ // collision
 			0,0,0,0,INT_TO_FP(w),INT_TO_FP(h),false,0xff
 		},{ // animation
@@ -41,17 +41,20 @@ void step_sprites(struct sprites* s){
 			if (!spr->active){ continue; } // only update live sprites
 			if (spr->scale.time >= 0){
 				spr->scale.s += spr->scale.ds;
-				spr->scale.time--;
+				if (--spr->scale.time < 0) spr->scale.s = spr->scale.end;
 			}
 			if (spr->angle.time >= 0){
 				// TODO:IMPL:MED interpolation direction?
 				spr->angle.a += spr->angle.da % INT_TO_FP(360);
-				spr->angle.time--;
+				if (--spr->angle.time < 0) spr->angle.a = spr->angle.end;
 			}
 			if (spr->pos.time >= 0){
 				spr->pos.x += spr->pos.dx;
 				spr->pos.y += spr->pos.dy;
-				spr->pos.time--;
+				if (--spr->pos.time < 0){
+					spr->pos.x = spr->pos.end_x;
+					spr->pos.y = spr->pos.end_y;
+				}
 			}
 			// TODO:PERF:NONE Check if this is slow.
 			if (spr->anim.loop_forever || spr->anim.loop > 0){
@@ -277,6 +280,8 @@ void cmd_spofs(struct ptc* p){
 			s->pos.dy = (y - s->pos.y) / time;
 //			iprintf("dx=%d dy=%d\n", s->pos.dx, s->pos.dy);
 			s->pos.time = time - 1;
+			s->pos.end_x = x;
+			s->pos.end_y = y;
 		} else {
 			s->pos.x = x;
 			s->pos.y = y;
@@ -394,21 +399,21 @@ void cmd_spscale(struct ptc* p){
 	int id, scale, time;
 	STACK_INT_RANGE(0,0,31,id);
 	STACK_INT_RANGE(1,0,200,scale);
-	time = p->stack.stack_i == 3 ? STACK_NUM(2) : 0;
-	if (time < 0){
-		ERROR(ERR_OUT_OF_RANGE);
+	time = 0;
+	if (p->stack.stack_i == 3){
+		STACK_INT_MIN(2,0,time);
 	}
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
 	if (!s->active){
 		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
 	}
-	if (p->stack.stack_i == 2){
+	if (!time){
 		s->scale.s = INT_TO_FP(scale)/100;
 		s->scale.time = -1;
 	} else {
-		STACK_INT_MIN(2,0,time);
 		s->scale.ds = ((INT_TO_FP(scale)/100) - s->scale.s) / time;
-		s->scale.time = time ? time : -1;
+		s->scale.time = time - 1;
+		s->scale.end = INT_TO_FP(scale)/100;
 	}
 }
 
@@ -496,17 +501,20 @@ void cmd_spangle(struct ptc* p){
 		struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
 //		s->angle.a = ;
 		if (time){
+			fixp turn = (INT_TO_FP(angle) - s->angle.a) % INT_TO_FP(360);
 			if (dir < 0){
 				// 45 -> 90 step 45/time
-				s->angle.da = (INT_TO_FP(angle) - s->angle.a) / time;
+				if (turn < 0) turn += INT_TO_FP(360);
 			} else {
-				// 45 -> 90 step 315/time
-				s->angle.da = (s->angle.a - INT_TO_FP(angle)) / time;
+				// 45 -> 90 step -315/time
+				if (turn > 0) turn -= INT_TO_FP(360);
 			}
+			s->angle.da = turn / time;
+			s->angle.end = INT_TO_FP(angle);
 		} else {
 			s->angle.a = INT_TO_FP(angle);
 		}
-		s->angle.time = time ? time : -1;
+		s->angle.time = time - 1;
 	}
 }
 
diff --git a/source/subsystem/sprites.h b/source/subsystem/sprites.h
index a0975ef..fdcb63e 100644
--- a/source/subsystem/sprites.h
+++ b/source/subsystem/sprites.h
@@ -54,6 +54,9 @@ struct sprites {
 			/// Remaining time to move sprite (frames)
 			/// If -1, sprite is done moving.
 			int time;
+			/// Position at the end of the movement (pixels)
+			fixp end_x;
+			fixp end_y;
 		} pos;
 		
 		/// Struct for sprite scaling.
@@ -63,8 +66,10 @@ struct sprites {
 			/// Change in scale over time (step/frame)
 			fixp ds;
 			/// Remaining time to scale sprite (frames)
-			/// If 0, sprite is done resizing.
+			/// If -1, sprite is done resizing.
 			int time;
+			/// Scale at the end of the change
+			fixp end;
 		} scale;
 		
 		/// Struct for sprite rotation
@@ -74,8 +79,10 @@ struct sprites {
 			/// Change in angle (degrees/frame)
 			fixp da;
 			/// Remaining time rotate sprite (frames)
-			/// If 0, sprite is done rotating.
+			/// If -1, sprite is done rotating.
 			int time;
+			/// Angle at the end of the rotation (degrees)
+			fixp end;
 		} angle;
 		
 		/// Struct for sprite collision detection.
-- 
2.43.0


From 91c18e4afe4e1b611011160d9a35716df7d29325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 032/100] fix: a finished sprite animation delayed other
 sprites and hid SPCHR; SPREAD of the character; SPCHK of unset sprites

---
 source/subsystem/sprites.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 0e43a80..ca113c7 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -73,7 +73,7 @@ void step_sprites(struct sprites* s){
 						if (!spr->anim.loop_forever && spr->anim.loop == 0){ //all loops complete
 							spr->anim.current_chr -= chr_step;
 							//no more animation; frame remains last frame
-							break;
+							continue;
 						}
 						spr->anim.current_chr = spr->chr;
 					}
@@ -518,6 +518,14 @@ void cmd_spangle(struct ptc* p){
 	}
 }
 
+// The new image replaces that of an animation, if there is one
+static void set_sprite_chr(struct sprite_info* s, int chr){
+	s->chr = chr;
+	s->anim.loop = 0;
+	s->anim.loop_forever = false;
+	s->anim.current_chr = -1;
+}
+
 void cmd_spchr(struct ptc* p){
 	int id, chr;
 	STACK_INT_RANGE(0,0,99,id);
@@ -525,7 +533,7 @@ void cmd_spchr(struct ptc* p){
 	STACK_INT_RANGE(1,0,(p->sprites.page ? 117 : 511),chr);
 	if (p->stack.stack_i == 2){
 		// SPCHR id, chr
-		s->chr = chr;
+		set_sprite_chr(s, chr);
 	} else {
 		// SPCHR id, chr, pal, h, v, prio
 		int pal, prio;
@@ -535,7 +543,7 @@ void cmd_spchr(struct ptc* p){
 		STACK_INT_RANGE(4,0,1,v);
 		STACK_INT_RANGE(5,0,3,prio);
 		
-		s->chr = chr;
+		set_sprite_chr(s, chr);
 		s->pal = pal;
 		s->flip_x = h;
 		s->flip_y = v;
@@ -549,6 +557,8 @@ void func_spchk(struct ptc* p){
 	p->stack.stack_i -= 1;
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
 	
+	if (!s->active) STACK_RETURN_INT(0); // nothing in progress
+	
 	int result = s->pos.time >= 0;
 	result |= (s->angle.time >= 0) << 1;
 	result |= (s->scale.time >= 0) << 2;
@@ -580,7 +590,7 @@ void cmd_spread(struct ptc* p){
 	}
 	if (p->stack.stack_i == 6){
 		fixp* c = (fixp*)ARG(5)->value.ptr;
-		*c = s->chr;
+		*c = INT_TO_FP(s->chr);
 	}
 }
 
@@ -589,8 +599,8 @@ void cmd_spanim(struct ptc* p){
 	int id, chrs, time;
 	// TODO:ERR:LOW Determine errors
 	STACK_INT_RANGE(0,0,99,id);
-	STACK_INT_MIN(1,0,chrs);
-	STACK_INT_MIN(2,0,time);
+	STACK_INT_MIN(1,1,chrs);
+	STACK_INT_MIN(2,1,time);
 	
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
 	s->anim.chrs = chrs;
-- 
2.43.0


From 8e064300f0f648de419b0f65b7434ae130415028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 033/100] fix: sprite collision used movement that had ended
 and ignored the scale flag

---
 source/subsystem/sprites.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index ca113c7..095a735 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -54,6 +54,8 @@ void step_sprites(struct sprites* s){
 				if (--spr->pos.time < 0){
 					spr->pos.x = spr->pos.end_x;
 					spr->pos.y = spr->pos.end_y;
+					spr->pos.dx = 0;
+					spr->pos.dy = 0;
 				}
 			}
 			// TODO:PERF:NONE Check if this is slow.
@@ -121,11 +123,12 @@ bool is_hit(struct sprite_info* a, struct sprite_info* b){
 	// TODO:PERF:LOW Check if reducing to regular AABB case is faster for sprites
 	// with only trivial vectors
 
-	// TODO:TEST:MED Verify adjustment for scale flag is correct
-	fixp ahx = ((dfixp)a->hit.x * a->scale.s) >> FIXPOINT;
-	fixp ahy = ((dfixp)a->hit.y * a->scale.s) >> FIXPOINT;
-	fixp ahxw = (((dfixp)a->hit.x + a->hit.w) * a->scale.s) >> FIXPOINT;
-	fixp ahyh = (((dfixp)a->hit.y + a->hit.h) * a->scale.s) >> FIXPOINT;
+	fixp a_scale = a->hit.scale_adjust ? a->scale.s : INT_TO_FP(1);
+	fixp b_scale = b->hit.scale_adjust ? b->scale.s : INT_TO_FP(1);
+	fixp ahx = ((dfixp)a->hit.x * a_scale) >> FIXPOINT;
+	fixp ahy = ((dfixp)a->hit.y * a_scale) >> FIXPOINT;
+	fixp ahxw = (((dfixp)a->hit.x + a->hit.w) * a_scale) >> FIXPOINT;
+	fixp ahyh = (((dfixp)a->hit.y + a->hit.h) * a_scale) >> FIXPOINT;
 
 	fixp a_verts[8][2] = {
 		// vertices of a
@@ -140,10 +143,10 @@ bool is_hit(struct sprite_info* a, struct sprite_info* b){
 		{a->pos.x + ahx + normals[2][1],  a->pos.y + ahyh - normals[2][0]},
 	};
 	
-	fixp bhx = ((dfixp)b->hit.x * b->scale.s) >> FIXPOINT;
-	fixp bhy = ((dfixp)b->hit.y * b->scale.s) >> FIXPOINT;
-	fixp bhxw = (((dfixp)b->hit.x + b->hit.w) * b->scale.s) >> FIXPOINT;
-	fixp bhyh = (((dfixp)b->hit.y + b->hit.h) * b->scale.s) >> FIXPOINT;
+	fixp bhx = ((dfixp)b->hit.x * b_scale) >> FIXPOINT;
+	fixp bhy = ((dfixp)b->hit.y * b_scale) >> FIXPOINT;
+	fixp bhxw = (((dfixp)b->hit.x + b->hit.w) * b_scale) >> FIXPOINT;
+	fixp bhyh = (((dfixp)b->hit.y + b->hit.h) * b_scale) >> FIXPOINT;
 
 	fixp b_verts[4][2] = {
 		{b->pos.x + bhx,  b->pos.y + bhy},
@@ -271,6 +274,8 @@ void cmd_spofs(struct ptc* p){
 		// spofs id,x,y
 		s->pos.x = x;
 		s->pos.y = y;
+		s->pos.dx = 0;
+		s->pos.dy = 0;
 		s->pos.time = -1;
 	} else {
 		STACK_INT_MIN(3,0,time);
@@ -285,6 +290,8 @@ void cmd_spofs(struct ptc* p){
 		} else {
 			s->pos.x = x;
 			s->pos.y = y;
+			s->pos.dx = 0;
+			s->pos.dy = 0;
 			s->pos.time = -1;
 		}
 	}
-- 
2.43.0


From 6727441dab03149d4ad6254aae83573c70049de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 034/100] fix: GFILL and GBOX drew off-page edges on the
 border, nothing for swapped corners and corners twice in XOR mode

---
 source/subsystem/graphics.c | 51 +++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 2d6bc3b..f27c58e 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -52,6 +52,26 @@ void cmd_gcls(struct ptc* p){
 	}
 }
 
+/// Sorts the corners of a rectangle and limits them to one pixel past each side
+/// of the page (which is never drawn).
+static void limit_rect(int* x1, int* y1, int* x2, int* y2){
+	int temp;
+	if (*x1 > *x2){
+		temp = *x1;
+		*x1 = *x2;
+		*x2 = temp;
+	}
+	if (*y1 > *y2){
+		temp = *y1;
+		*y1 = *y2;
+		*y2 = temp;
+	}
+	*x1 = *x1 < 0 ? -1 : *x1 > GRP_WIDTH ? GRP_WIDTH : *x1;
+	*y1 = *y1 < 0 ? -1 : *y1 > GRP_HEIGHT ? GRP_HEIGHT : *y1;
+	*x2 = *x2 < 0 ? -1 : *x2 > GRP_WIDTH ? GRP_WIDTH : *x2;
+	*y2 = *y2 < 0 ? -1 : *y2 > GRP_HEIGHT ? GRP_HEIGHT : *y2;
+}
+
 void cmd_gfill(struct ptc* p){
 	//GFILL x1 y1 x2 y2 [c]
 	//TODO:ERR:LOW Check argument clamping accuracy
@@ -61,10 +81,7 @@ void cmd_gfill(struct ptc* p){
 	int y2 = STACK_INT(3);
 	u8 color;
 	
-	x1 = x1 < 0 ? 0 : x1 > GRP_WIDTH ? GRP_WIDTH : x1;
-	y1 = y1 < 0 ? 0 : y1 > GRP_HEIGHT ? GRP_HEIGHT : y1;
-	x2 = x2 < 0 ? 0 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
-	y2 = y2 < 0 ? 0 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
+	limit_rect(&x1, &y1, &x2, &y2);
 	
 	if (p->stack.stack_i == 5){
 		STACK_INT_RANGE(4,0,255,color);
@@ -89,10 +106,7 @@ void cmd_gbox(struct ptc* p){
 	int y2 = STACK_INT(3);
 	u8 color;
 	
-	x1 = x1 < 0 ? 0 : x1 > GRP_WIDTH ? GRP_WIDTH : x1;
-	y1 = y1 < 0 ? 0 : y1 > GRP_HEIGHT ? GRP_HEIGHT : y1;
-	x2 = x2 < 0 ? 0 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
-	y2 = y2 < 0 ? 0 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
+	limit_rect(&x1, &y1, &x2, &y2);
 	
 	if (p->stack.stack_i == 5){
 		int c = STACK_INT(4);
@@ -106,21 +120,14 @@ void cmd_gbox(struct ptc* p){
 	
 	u8* page = grp_drawpage(p);
 	
-	int x = x1;
-	int y = y1;
-	for (int_fast16_t x = x1; x <= x2; ++x){
-		grp_pixel(page,x,y,color,p->graphics.drawmode);
-	}
-	for (int_fast16_t y = y1; y <= y2; ++y){
-		grp_pixel(page,x,y,color,p->graphics.drawmode);
-	}
-	x = x2;
-	y = y2;
-	for (int_fast16_t x = x1; x <= x2; ++x){
-		grp_pixel(page,x,y,color,p->graphics.drawmode);
+	// Each pixel is drawn only once (matters for XOR mode)
+	for (int x = x1; x <= x2; ++x){
+		grp_pixel(page,x,y1,color,p->graphics.drawmode);
+		if (y2 != y1) grp_pixel(page,x,y2,color,p->graphics.drawmode);
 	}
-	for (int_fast16_t y = y1; y <= y2; ++y){
-		grp_pixel(page,x,y,color,p->graphics.drawmode);
+	for (int y = y1 + 1; y < y2; ++y){
+		grp_pixel(page,x1,y,color,p->graphics.drawmode);
+		if (x2 != x1) grp_pixel(page,x2,y,color,p->graphics.drawmode);
 	}
 	p->stack.stack_i = 0;
 }
-- 
2.43.0


From 72f801c251daf23c348b46af00d14b86463789bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 035/100] fix: GLINE overflowed for long lines; GCIRCLE in XOR
 mode erased the pixels its lines share

---
 source/subsystem/graphics.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index f27c58e..e43e1b8 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -132,16 +132,27 @@ void cmd_gbox(struct ptc* p){
 	p->stack.stack_i = 0;
 }
 
-static inline void draw_line(int x1, int y1, int x2, int y2, u8* page, u8 color, bool drawmode){
+/// Draws one pixel of a line. If a `drawn` bitmap is given, pixels marked in it
+/// are not drawn again (which would undo them in XOR mode).
+static inline void line_pixel(u8* page, int x, int y, u8 color, bool drawmode, u8* drawn){
+	if (drawn && x >= 0 && x < GRP_WIDTH && y >= 0 && y < GRP_HEIGHT){
+		u16 index = grp_index(x,y);
+		if (drawn[index / 8] & (1 << (index % 8))) return;
+		drawn[index / 8] |= 1 << (index % 8);
+	}
+	grp_pixel(page,x,y,color,drawmode);
+}
+
+static inline void draw_line(int x1, int y1, int x2, int y2, u8* page, u8 color, bool drawmode, u8* drawn){
 	// Draw a line :)
 	if (abs(x2 - x1) >= abs(y2 - y1)){
 		if (x1 == x2 && y1 == y2){
-			grp_pixel(page,x1,y1,color,drawmode);
+			line_pixel(page,x1,y1,color,drawmode,drawn);
 			return;
 		}
 		// Line has horizontal component
 		// x1 -> x2
-		fixp y_slope = ((((int64_t)(y2 - y1) << 32) / (x2 - x1)) >> (32 - FIXPOINT)) & 0xFFFFFFFF;
+		fixp y_slope = ((((int64_t)(y2 - y1) * ((int64_t)1 << 32)) / (x2 - x1)) >> (32 - FIXPOINT)) & 0xFFFFFFFF;
 		// 8.12 FP I guess
 		if (x1 > x2){
 			int temp = y1;
@@ -152,13 +163,13 @@ static inline void draw_line(int x1, int y1, int x2, int y2, u8* page, u8 color,
 			x2 = temp;
 		}
 		for (int x = x1; x <= x2; ++x){
-			int y = FP_TO_INT(y_slope*(x-x1) + (1<<(FIXPOINT-1))) + y1;
+			int y = FP_TO_INT((int64_t)y_slope*(x-x1) + (1<<(FIXPOINT-1))) + y1;
 			
-			grp_pixel(page,x,y,color,drawmode);
+			line_pixel(page,x,y,color,drawmode,drawn);
 		}
 	} else {
 		// X-range <= Y-range
-		fixp x_slope = ((((int64_t)(x2 - x1) << 32) / (y2 - y1)) >> (32 - FIXPOINT)) & 0xFFFFFFFF;
+		fixp x_slope = ((((int64_t)(x2 - x1) * ((int64_t)1 << 32)) / (y2 - y1)) >> (32 - FIXPOINT)) & 0xFFFFFFFF;
 		// 8.12 FP I guess
 		if (y1 > y2){
 			int temp = y1;
@@ -169,9 +180,9 @@ static inline void draw_line(int x1, int y1, int x2, int y2, u8* page, u8 color,
 			x2 = temp;
 		}
 		for (int y = y1; y <= y2; ++y){
-			int x = FP_TO_INT(x_slope*(y-y1) + (1<<(FIXPOINT-1))) + x1;
+			int x = FP_TO_INT((int64_t)x_slope*(y-y1) + (1<<(FIXPOINT-1))) + x1;
 			
-			grp_pixel(page,x,y,color,drawmode);
+			line_pixel(page,x,y,color,drawmode,drawn);
 		}
 	}
 }
@@ -198,7 +209,7 @@ void cmd_gline(struct ptc* p){
 	u8* page = grp_drawpage(p);
 	
 	// Draw a line :)
-	draw_line(x1, y1, x2, y2, page, color, p->graphics.drawmode);
+	draw_line(x1, y1, x2, y2, page, color, p->graphics.drawmode, NULL);
 }
 
 void cmd_gpset(struct ptc* p){
@@ -441,6 +452,7 @@ void cmd_gcircle(struct ptc* p){
 	int drawmode = p->graphics.drawmode;
 	// TODO:IMPL:LOW angle range version
 	int angle_units = r + 16;
+	u8 drawn[GRP_SIZE / 8] = {0}; // the lines below share pixels
 	// this implementation will be a bit slow it's just to have <something>
 	for (int i = 0; i < angle_units; ++i){
 		double angle = 2.0 * PI * i / angle_units;
@@ -450,7 +462,7 @@ void cmd_gcircle(struct ptc* p){
 		int x2 = x + r * cos(angle2);
 		int y2 = y + r * sin(angle2);
 		
-		draw_line(x1,y1,x2,y2,page,color,drawmode);
+		draw_line(x1,y1,x2,y2,page,color,drawmode,drawn);
 	}
 }
 
-- 
2.43.0


From 29f3710501ae7f5e133571e870f26c45bbd569c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 036/100] fix: GPAINT read outside of the page for off-page
 starts and never ended when the fill color was part of the area

---
 source/subsystem/graphics.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index e43e1b8..7e8300d 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -469,10 +469,12 @@ void cmd_gcircle(struct ptc* p){
 // Based on "combined-scan-and-fill" algorithm listed at
 // https://en.wikipedia.org/wiki/Flood_fill?useskin=monobook
 // match: positive = only fill this color negative = fill any other color
-static inline bool inside(u8* data, int x, int y, int match){
+// c: fill color, pixels that have it are filled already
+static inline bool inside(u8* data, int x, int y, int match, int c){
 	if (x < 0 || x >= GRP_WIDTH || y < 0 || y >= GRP_HEIGHT) return 0;
 	
-	return match >= 0 ? (data[grp_index(x,y)] == match) : (data[grp_index(x,y)] != -match - 1); // matching first color
+	int pixel = data[grp_index(x,y)];
+	return pixel != c && (match >= 0 ? (pixel == match) : (pixel != -match - 1)); // matching first color
 }
 
 #define PAINT_STACK_MAX 256
@@ -509,6 +511,10 @@ void cmd_gpaint(struct ptc* p){
 	}
 	u8* data = p->res.grp[p->graphics.info[p->graphics.screen].drawpage];
 
+	if (x < 0 || x >= GRP_WIDTH || y < 0 || y >= GRP_HEIGHT){
+		return; // nothing to paint outside of page
+	}
+
 	int match;
 	if (p->stack.stack_i > 3){
 		int b;
@@ -528,8 +534,8 @@ void cmd_gpaint(struct ptc* p){
 		PAINT_STACK_GET(x1, x2, y, dy);
 		
 		x = x1;
-		if (inside(data, x, y, match)){
-			while(inside(data, x-1, y, match)){
+		if (inside(data, x, y, match, c)){
+			while(inside(data, x-1, y, match, c)){
 				data[grp_index(x-1, y)] = c;
 				--x;
 			}
@@ -538,7 +544,7 @@ void cmd_gpaint(struct ptc* p){
 			}
 		}
 		while(x1 <= x2){
-			while(inside(data, x1, y, match)){
+			while(inside(data, x1, y, match, c)){
 				data[grp_index(x1, y)] = c;
 				++x1;
 			}
@@ -549,7 +555,7 @@ void cmd_gpaint(struct ptc* p){
 				PAINT_STACK_ADD(x2 + 1, x1 - 1, y - dy, -dy);
 			}
 			++x1;
-			while (x1 < x2 && !inside(data, x1, y, match)){
+			while (x1 < x2 && !inside(data, x1, y, match, c)){
 				++x1;
 			}
 			x = x1;
-- 
2.43.0


From 20a4b47439099a6727a7816215626e3a77a48d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 037/100] fix: resource types given to CHR commands and GPUTCHR
 were not validated and selected banks outside of the resources

---
 source/subsystem/resources.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index a3256da..f2c47d6 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -774,7 +774,7 @@ int get_chr_index(struct ptc* p, const char* res){
 struct res_info get_verified_resource_type(struct ptc* p, const void* res){
 	// TODO:ERR:LOW verify correct error codes
 	struct res_info info = {0};
-	if (str_len(res) > MAX_RESOURCE_TYPE_LENGTH){
+	if (!verify_resource_type_str(res)){
 		p->exec.error = ERR_INVALID_RESOURCE_TYPE;
 		return info;
 	}
-- 
2.43.0


From f3af0122abff079ebed941a31729129699bfaadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 038/100] fix: GPUTCHR never drew the first row, read any
 resource as character and copied colors before checking it

---
 source/subsystem/graphics.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 7e8300d..27e509c 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -252,6 +252,13 @@ void cmd_gputchr(struct ptc* p){
 	STACK_INT_RANGE(4,0,15,pal);
 	size = STACK_INT(5);
 	if (size == 1 || size == 2 || size == 4 || size == 8){
+		// pointer to base resource
+		struct res_info i = get_verified_resource_type(p, resource);
+		u8* src = i.data;
+		if (!src || i.type_id != TYPE_CHR){
+			ERROR(ERR_INVALID_RESOURCE_TYPE); // TODO:ERR:MED Check this is correct
+		}
+
 		// Copy colors from character resource specified
 		// BG* -> COL0
 		// SP* -> COL1
@@ -269,12 +276,6 @@ void cmd_gputchr(struct ptc* p){
 		iprintf("GPUTCHR palette copy %s(%p) %s%c(%p)\n", col_resource, (void*)col_src, "COL2", (p->graphics.screen ? 'L' : 'U'), (void*)col_dest);
 		p->res.regen_col = true;
 
-		// pointer to base resource
-		struct res_info i = get_verified_resource_type(p, resource);
-		u8* src = i.data;
-		if (!src){
-			ERROR(ERR_INVALID_RESOURCE_TYPE); // TODO:ERR:MED Check this is correct
-		}
 		// pointer to relevant character
 		src = &src[CHR_UNIT_SIZE * chr];
 
@@ -289,7 +290,7 @@ void cmd_gputchr(struct ptc* p){
 					for (int j = 0; j < size; ++j){
 						int xp = x_start + x*size + j;
 						int yp = y_start + y*size + i;
-						if (col1 && xp >= 0 && xp < GRP_WIDTH && yp && yp < GRP_HEIGHT){
+						if (col1 && xp >= 0 && xp < GRP_WIDTH && yp >= 0 && yp < GRP_HEIGHT){
 							grp_pixel(dest, xp, yp, 16*pal+col1, p->graphics.drawmode);
 						}
 					}
@@ -298,7 +299,7 @@ void cmd_gputchr(struct ptc* p){
 					for (int j = 0; j < size; ++j){
 						int xp = x_start + x*size + j + size;
 						int yp = y_start + y*size + i;
-						if (col2 && xp >= 0 && xp < GRP_WIDTH && yp && yp < GRP_HEIGHT){
+						if (col2 && xp >= 0 && xp < GRP_WIDTH && yp >= 0 && yp < GRP_HEIGHT){
 							grp_pixel(dest, xp, yp, 16*pal+col2, p->graphics.drawmode);
 						}
 					}
-- 
2.43.0


From 402d773b692aedf2a74320b6151d5dec3211b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 039/100] fix: GCOPY of huge areas took minutes

---
 source/subsystem/graphics.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 27e509c..6684ecf 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -394,6 +394,16 @@ void cmd_gcopy(struct ptc* p){
 		y2 = temp;
 	}
 	
+	// Limit the rectangle to the part that is copied to the page, without moving it
+	int ofs_x = x3 - x1;
+	int ofs_y = y3 - y1;
+	x1 = x1 < -ofs_x ? -ofs_x : x1;
+	y1 = y1 < -ofs_y ? -ofs_y : y1;
+	x2 = x2 > GRP_WIDTH - 1 - ofs_x ? GRP_WIDTH - 1 - ofs_x : x2;
+	y2 = y2 > GRP_HEIGHT - 1 - ofs_y ? GRP_HEIGHT - 1 - ofs_y : y2;
+	x3 = x1 + ofs_x;
+	y3 = y1 + ofs_y;
+
 	// TODO:TEST:MED Check that this works with offscreen coords
 	iprintf("gcopy %d,%d,%d,%d,%d,%d\n", x1, y1, x2, y2, x3, y3);
 	if (y3 < y1 || (y3 == y1 && x3 < x1)){
-- 
2.43.0


From 8fdcf4dc827d5fa5c851ec852efb678ec7a388dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 040/100] fix: BGOFS with a time overflowed and stopped short
 of its target

---
 source/subsystem/background.c | 11 +++++++++--
 source/subsystem/background.h |  3 +++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index 40a5f87..9eb9c25 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -32,6 +32,11 @@ void step_background(struct background* b){
 				bg->x += bg->step_x;
 				bg->y += bg->step_y;
 				bg->time--;
+				if (!bg->time){
+					// steps are rounded; target is reached exactly
+					bg->x = bg->end_x;
+					bg->y = bg->end_y;
+				}
 			}
 		}
 	}
@@ -186,8 +191,10 @@ void cmd_bgofs(struct ptc* p){
 	} else {
 		STACK_INT_MIN(3,0,time);
 		if (time){
-			b->step_x = (x - b->x) / time;
-			b->step_y = (y - b->y) / time;
+			b->step_x = ((int64_t)x - b->x) / time;
+			b->step_y = ((int64_t)y - b->y) / time;
+			b->end_x = x;
+			b->end_y = y;
 		} else {
 			b->x = x;
 			b->y = y;
diff --git a/source/subsystem/background.h b/source/subsystem/background.h
index 43eac72..261c905 100644
--- a/source/subsystem/background.h
+++ b/source/subsystem/background.h
@@ -32,6 +32,9 @@ struct background {
 		fixp step_x;
 		fixp step_y;
 		
+		fixp end_x;
+		fixp end_y;
+		
 		fixp time;
 	} ofs[SCREEN_COUNT][BG_LAYERS]; // index order: ofs[page][layer]
 	
-- 
2.43.0


From 946d951a4fbfc259140699475c946cdf510af8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 041/100] fix: BGCOPY wrote tiles outside of the layer

---
 source/subsystem/background.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index 9eb9c25..f9c1d19 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -299,6 +299,10 @@ void cmd_bgcopy(struct ptc* p){
 		y2 = temp;
 	}
 	
+	// tiles that would be copied past the end of the layer are left out
+	if (x2 - x1 + x3 > BG_WIDTH-1) { x2 = BG_WIDTH-1 - x3 + x1; }
+	if (y2 - y1 + y3 > BG_HEIGHT-1) { y2 = BG_HEIGHT-1 - y3 + y1; }
+	
 	// valid args: put tile
 	u16* bg = bg_page(p, p->background.page, layer);
 	
-- 
2.43.0


From 1f8d803d4eda06c49f4e35243356e357bd8ed487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 042/100] fix: compression wrote past its output;
 incompressible, truncated and unfit compressed data overran memory or was
 garbled

---
 source/extension/compress.c  | 27 ++++++++++++++++++-------
 source/extension/compress.h  |  5 ++++-
 source/subsystem/resources.c | 39 +++++++++++++++++++++++-------------
 3 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/source/extension/compress.c b/source/extension/compress.c
index 2ba6ccf..86b7ce9 100644
--- a/source/extension/compress.c
+++ b/source/extension/compress.c
@@ -26,7 +26,9 @@ void sbc_write_bits(unsigned char* output_data, int* output_index, int value, in
 	int value_high = value >> 8;
 	int value_low = value & 0xff;
 	output_data[*output_index / 8 + 0] |= value_high;
-	output_data[*output_index / 8 + 1] |= value_low;
+	if (*output_index % 8 + bits > 8){
+		output_data[*output_index / 8 + 1] |= value_low;
+	}
 	*output_index += bits;
 }
 
@@ -53,7 +55,8 @@ int sbc_compress(const unsigned char* const source_data, unsigned char* output_d
 	int cache_next_slot = 0;
 	int source_index = 0;
 	int output_index = 0;
-	while (source_index < source_size && (output_index / 8 + (output_index % 8 != 0)) < source_size){
+	// Stops when there is no room for another unit, which means that compression is of no use
+	while (source_index < source_size && output_index + 1 + unit_size <= 8 * source_size){
 		int unit = source_data[source_index];
 		++source_index;
 		int cache_index = sbc_cache_search(unit, cache, cache_maximum);
@@ -70,7 +73,7 @@ int sbc_compress(const unsigned char* const source_data, unsigned char* output_d
 			cache_next_slot = (cache_next_slot + 1) % cache_maximum;
 		}
 	}
-	if (output_index / 8 + (output_index % 8 != 0) >= source_size){
+	if (source_index < source_size || output_index / 8 + (output_index % 8 != 0) >= source_size){
 		// Did not compress better than source
 		return -1;
 	}
@@ -99,6 +102,7 @@ struct sbc_compression_result sbc_optimal_compress(const unsigned char* const so
 
 int sbc_read_bits(const unsigned char* const source_data, int* bit_index, int bits){
 	assert(bits <= 8);
+	if (!bits) return 0; // nothing to read
 	int byte_index = *bit_index / 8;
 	int bit = *bit_index % 8;
 	*bit_index += bits;
@@ -120,10 +124,15 @@ int sbc_read_bits(const unsigned char* const source_data, int* bit_index, int bi
 	//      1xx xxxxxx
 }
 
-// note: decompression happens from low to high address
-// if compressed is placed at end of destination range,
-// decompression should only overwrite bytes that have already been read
-unsigned char* sbc_decompress(const unsigned char* const source_data, unsigned char* dest, int decompressed_size, int cache_bits){
+// note: source_data and dest must not overlap
+unsigned char* sbc_decompress(const unsigned char* const source_data, int source_size, unsigned char* dest, int decompressed_size, int cache_bits){
+	if (cache_bits == -1){
+		// Not compressed
+		if (source_size < decompressed_size) return NULL;
+		memcpy(dest, source_data, decompressed_size);
+		return dest;
+	}
+	if (cache_bits < 0 || cache_bits > 7) return NULL;
 	// Cache info
 	unsigned char cache[128] = {0};
 	const int cache_maximum = 1 << cache_bits;
@@ -137,6 +146,10 @@ unsigned char* sbc_decompress(const unsigned char* const source_data, unsigned c
 	
 	int source_bit = 0;
 	for (int i = 0; i < decompressed_size; ++i){
+		// Check that source contains the bits of this unit
+		if (source_bit >= 8 * source_size) return NULL;
+		bool literal = source_data[source_bit / 8] & (0x80 >> (source_bit % 8));
+		if (source_bit + 1 + (literal ? 8 : cache_bits) > 8 * source_size) return NULL;
 		if (sbc_read_bits(source_data, &source_bit, 1)){
 			// literal
 			output[i] = sbc_read_bits(source_data, &source_bit, 8);
diff --git a/source/extension/compress.h b/source/extension/compress.h
index dc609aa..7430424 100644
--- a/source/extension/compress.h
+++ b/source/extension/compress.h
@@ -25,4 +25,7 @@ struct sbc_compression_result sbc_optimal_compress(const unsigned char* const so
 
 int sbc_read_bits(const unsigned char* const source_data, int* bit_index, int bits);
 
-unsigned char* sbc_decompress(const unsigned char* const source_data, unsigned char* dest, int decompressed_size, int cache_bits);
+/// Decompresses exactly `decompressed_size` bytes to `dest`.
+///
+/// @return dest on success, NULL if the compressed data is invalid or incomplete
+unsigned char* sbc_decompress(const unsigned char* const source_data, int source_size, unsigned char* dest, int decompressed_size, int cache_bits);
diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index f2c47d6..053668f 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -368,8 +368,9 @@ int check_load_file(u8* dest, const char* search_path, const char* name, int siz
 			FILE_CLOSE("Failed to seek past file type id");
 		}
 		u8 header[4];
-		fread(header, sizeof(u8), 4, f);
-		CHECK_FILE_ERROR("Failed to read header");
+		if (fread(header, sizeof(u8), 4, f) < 4){
+			FILE_CLOSE("Failed to read header");
+		}
 
 		// Determine size of file
 		if (fseek(f, 0, SEEK_END)){
@@ -379,20 +380,30 @@ int check_load_file(u8* dest, const char* search_path, const char* name, int siz
 		if (file_size < 0){
 			FILE_CLOSE("Failed to determine file size");
 		}
-		rewind(f); // resets errors apparently
+		int bits = header[0] == 0xff ? -1 : header[0]; // -1: not compressed
+		int expected_size = header[1] | (header[2] << 8) | (header[3] << 16);
+		if (expected_size != size){ // request == expected
+			FILE_CLOSE("Compressed file has wrong size");
+		}
+		file_size -= 8; // skip header
+		if (file_size > size || fseek(f, 8, SEEK_SET)){
+			FILE_CLOSE("Invalid size of compressed data");
+		}
 
-		// Use destination as temporary storage
-		// causes brief artifacting but requires zero extra memory
-		u8* compressed = dest + size - file_size; // places file at end of destination
+		// Note: data can't be decompressed in place: parts of it might be
+		// larger than what they decompress to
+		// (not from the memory block, which is never freed)
+		u8* compressed = malloc(file_size + 1);
+		if (!compressed){
+			FILE_CLOSE("Failed to allocate memory for compressed data");
+		}
 		size_read = fread(compressed, sizeof(u8), file_size, f);
-		CHECK_FILE_ERROR("Failed to read file");
-		compressed += 8; // skip header
-
-		int bits = header[0];
-		int expected_size = header[1] | (header[2] << 8) | (header[3] << 16);
-		(void)expected_size; // for when assert fails
-		assert(expected_size == size); // request == expected
-		sbc_decompress(compressed, dest, size, bits);
+		bool ok = size_read == file_size && sbc_decompress(compressed, file_size, dest, size, bits);
+		free(compressed);
+		if (!ok){
+			FILE_CLOSE("Failed to read compressed data");
+		}
+		size_read = size;
 
 		FILE_OK();
 	} else {
-- 
2.43.0


From 9ba23333e65e81c78f7500016f16c0f8bb5a29fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 043/100] fix: SAVE of programs used the program text as a
 structure; SAVE reported success on write errors

---
 source/subsystem/resources.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 053668f..da9afc9 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -293,6 +293,7 @@ int check_save_res(void* src, const char* search_path, const char* name, int typ
 		fwrite(data, 1, 12, f);
 		CHECK_FILE_ERROR("Failed to write program header");
 		size_read = fwrite(prg.data, 1, prg.size, f);
+		fflush(f); // errors might occur only now
 		CHECK_FILE_ERROR("Failed to write program data");
 		FILE_OK(); // close and return size_read
 	} else if (type > TYPE_PRG && type < TYPE_INVALID) {
@@ -304,6 +305,7 @@ int check_save_res(void* src, const char* search_path, const char* name, int typ
 		fwrite(internal_type_str[type], 1, 12, f);
 		CHECK_FILE_ERROR("Failed to write file type");
 		size_read = fwrite((u8*)src, 1, resource_size[type], f);
+		fflush(f); // errors might occur only now
 		CHECK_FILE_ERROR("Failed to write resource data");
 		FILE_OK(); // close and return size_read
 	} else {
@@ -876,6 +878,7 @@ void cmd_save(struct ptc* p){
 	if (p->exec.error) return; // error condition already met, fail here
 
 	assert(LITTLE_ENDIAN); // relied on for TYPE_MEM
+	if (info.type_id == TYPE_PRG) info.data = &p->exec.prg;
 	int size = check_save_res(info.data, p->res.search_path, info.name, info.type_id);
 	p->res.result = size != 0;
 }
-- 
2.43.0


From d2c0dd854370e49b0a6203cc2f946f81e22ae680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 044/100] fix: programs larger than the program memory,
 incomplete ones and other files loaded as programs overran memory; PRGNAME$
 of PETC files

---
 source/subsystem/resources.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index da9afc9..2fadb0e 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -27,6 +27,9 @@
 	return size_read;\
 } while (0)
 
+/// Offset of resource type within internal type string
+#define TYPE_STR_ID_OFS 8
+
 /// Error indication and file cleanup
 #define FILE_CLOSE(msg) do {\
 	fclose(f);\
@@ -87,7 +90,7 @@ int load_program(struct ptc* p, const char* search_path, const char* name){
 	if (!f){
 		FILE_ERROR("Failed to load file");
 	}
-	struct ptc_header h;
+	struct ptc_header h = {0};
 	fread(h.magic, sizeof(char), 4, f);
 	CHECK_FILE_ERROR("Failed to read file magic ID");
 	fseek(f, 0, SEEK_SET);
@@ -110,9 +113,24 @@ int load_program(struct ptc* p, const char* search_path, const char* name){
 		if (size_read < internal_header_size){
 			FILE_CLOSE("Could not read complete program header");
 		}
+		// internal format contains no name
+		strncpy(h.name, name, PRGNAME_STR_LENGTH);
 	} else {
 		FILE_CLOSE("Unknown PRG file format");
 	}
+	if (strncmp(h.type_str + TYPE_STR_ID_OFS, internal_type_str[TYPE_PRG] + TYPE_STR_ID_OFS, HEADER_TYPE_STR_SIZE - TYPE_STR_ID_OFS)){
+		FILE_CLOSE("Not a program file");
+	}
+
+	// Check that program fits and is complete before replacing the current one
+	long prg_start = ftell(f);
+	fseek(f, 0, SEEK_END);
+	long prg_remaining = ftell(f) - prg_start;
+	fseek(f, prg_start, SEEK_SET);
+	CHECK_FILE_ERROR("Failed to seek to program");
+	if (h.prg_size > MAX_SOURCE_SIZE || prg_remaining < (long)h.prg_size){
+		FILE_CLOSE("Program is too large or incomplete");
+	}
 
 	// Read program data
 	size_read = fread(get_resource_ptr(p, "PRG"), sizeof(u8), h.prg_size, f);
@@ -150,6 +168,9 @@ int load_program(struct ptc* p, const char* search_path, const char* name){
 		iprintf("res: %d,%d, %.*s", i, resource[1], resource[1], resource+2);
 		// Get destination for this resource index
 		struct res_info info = get_verified_resource_type(p, resource);
+		if (!info.data){
+			FILE_CLOSE("Unknown resource in package");
+		}
 		// Check type string matches
 		char type_str[HEADER_TYPE_STR_SIZE];
 		int read = fread(type_str, sizeof(char), HEADER_TYPE_STR_SIZE, f);
@@ -170,6 +191,8 @@ int load_program(struct ptc* p, const char* search_path, const char* name){
 			p->res.regen_chr[get_chr_index(p, info.type)] = true;
 		} else if (info.type_id == TYPE_COL){
 			p->res.regen_col = true;
+		} else if (info.type_id == TYPE_MEM){
+			p->res.mem_str.len = p->res.mem.size <= MAX_STRLEN ? p->res.mem.size : 0;
 		}
 	}
 
-- 
2.43.0


From 65de369081a6b940939ed360fccd756e53184eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 045/100] fix: LOAD accepted files of other types and
 incomplete files, and MEM files with a length past the memory

---
 source/subsystem/resources.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 2fadb0e..9d8fbf3 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -336,7 +336,23 @@ int check_save_res(void* src, const char* search_path, const char* name, int typ
 	}
 }
 
-// TODO:ERR:LOW Add file type validation
+/// Checks whether a file states a resource type, and whether this is not the given one.
+/// Compressed files do not state a type; missing files are detected when loading.
+static bool is_other_file_type(const char* path, int type){
+	char type_str[HEADER_SIZE];
+	FILE* f = fopen(path, "rb");
+	if (!f) return false;
+	size_t read = fread(type_str, sizeof(char), HEADER_SIZE, f);
+	fclose(f);
+	const char* id = type_str;
+	if (read >= HEADER_SIZE && !strncmp(type_str, "PX01", 4)){
+		id = type_str + HEADER_SIZE - HEADER_TYPE_STR_SIZE;
+	} else if (read < HEADER_TYPE_STR_SIZE || strncmp(type_str, "PETC", 4)){
+		return false;
+	}
+	return strncmp(id + TYPE_STR_ID_OFS, internal_type_str[type] + TYPE_STR_ID_OFS, HEADER_TYPE_STR_SIZE - TYPE_STR_ID_OFS);
+}
+
 int check_load_res(u8* dest, const char* search_path, const char* name, int type){
 	char path[MAX_FILEPATH_LENGTH+1] = {0};
 	if (!create_path(path, search_path, name, ".PTC")){
@@ -345,6 +361,8 @@ int check_load_res(u8* dest, const char* search_path, const char* name, int type
 
 	if (type == TYPE_PRG){
 		return load_program((struct ptc*)dest, search_path, name);
+	} else if (is_other_file_type(path, type)){
+		FILE_ERROR("File contains a different type of resource");
 	} else if (type == TYPE_MEM){
 		return check_load_file(dest, search_path, name, resource_size[type]);
 	} else if (type >= TYPE_CHR && type <= TYPE_COL){
@@ -378,6 +396,9 @@ int check_load_file(u8* dest, const char* search_path, const char* name, int siz
 
 		size_read = fread(dest, sizeof(u8), size, f);
 		CHECK_FILE_ERROR("Failed to read file");
+		if (size_read < size){
+			FILE_CLOSE("File is incomplete");
+		}
 		FILE_OK();
 	} else if (!strncmp(check_type, "PETC", 4)){
 		// Petit Computer internal file format: skip type
@@ -386,6 +407,9 @@ int check_load_file(u8* dest, const char* search_path, const char* name, int siz
 		}
 		size_read = fread(dest, sizeof(u8), size, f);
 		CHECK_FILE_ERROR("Failed to read file");
+		if (size_read < size){
+			FILE_CLOSE("File is incomplete");
+		}
 		FILE_OK();
 	} else if (!strncmp(check_type, "SBCC", 4)){
 		// SBC compressed format (something a bit more inventive)
@@ -885,6 +909,11 @@ void cmd_load(struct ptc* p){
 
 		case TYPE_MEM:;
 			assert(LITTLE_ENDIAN);
+			if (p->res.mem.size > MAX_STRLEN){
+				// invalid file content
+				p->res.mem.size = 0;
+				p->res.result = 0;
+			}
 			p->res.mem_str.len = p->res.mem.size;
 			break;
 
-- 
2.43.0


From 8ae85209978012afbece67585b25d431075fce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 046/100] fix: COLINIT of a single color read a missing
 argument

---
 source/subsystem/resources.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 9d8fbf3..836d911 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -1072,10 +1072,11 @@ void cmd_colinit(struct ptc* p){
 		} else {
 			static_assert(LITTLE_ENDIAN, "load from file requires this");
 			u16 from_file[256]; // TODO:PERF:LOW loading entire file is slow, store it in-mem?
-			load_col((u8*)from_file, resource_path, name);
-
 			int index;
-			STACK_INT_RANGE(2,0,255,index);
+			STACK_INT_RANGE(1,0,255,index);
+			if (!load_col((u8*)from_file, resource_path, name)){
+				return;
+			}
 			((u16*)col_data)[index] = from_file[index];
 		}
 	}
-- 
2.43.0


From 03d65720de7d6c70329182e8de3deceef8f0cbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 047/100] fix: EXEC did not check the file name and started
 programs outside of the program directory

---
 source/interpreter/runner.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index eed3d21..08dcbb9 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -591,13 +591,13 @@ void run(struct bytecode code, struct ptc* p){
 
 void cmd_exec(struct ptc* p){
 	// EXEC filename
-	char filename_buf[MAX_STRLEN+1];
 	void* filename = value_str(ARG(0));
-	str_char_copy(filename, (u8*)filename_buf);
-	filename_buf[str_len(filename)] = '\0';
+	struct res_info info = get_verified_resource(p, filename);
+	if (p->exec.error) return; // name is not valid
+	if (info.type_id != TYPE_PRG) ERROR(ERR_INVALID_RESOURCE_TYPE);
 	
 	// Load program into memory and tokenize
-	int size = load_program(p, p->res.search_path, filename_buf);
+	int size = load_program(p, p->res.search_path, info.name);
 	if (!size){
 		// Failed to load file
 		p->res.result = 0;
-- 
2.43.0


From 5ef54d21462f9c1a8c131a14cf1d5e335174211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 048/100] fix: FILES crashed without program directory and on
 names without extension, listed invalid names and leaked the directory

---
 source/system.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/source/system.c b/source/system.c
index 31b5cc7..cbedbf3 100644
--- a/source/system.c
+++ b/source/system.c
@@ -180,20 +180,27 @@ void cmd_files(struct ptc* p){
 	} else {
 		// FILES (all)
 		DIR* dir = opendir(p->res.search_path);
+		if (!dir) return; // no directory: no files
 		for (struct dirent* d = readdir(dir); d != NULL; d = readdir(dir)){
-			filename[1] = strchr(d->d_name, '.') - d->d_name;
-			if (filename[1] > 8 || !filename[1]){
+			int length = strcspn(d->d_name, "."); // strip any extension
+			if (length > 8 || !length){
 				continue; // file is inaccessible, name is too big
 			}
-			for (int i = 0; i < filename[1]; ++i){
-				if (!is_name(filename[2 + i])){
-					continue; // skip due to invalid characters
+			bool valid = true;
+			for (int i = 0; i < length; ++i){
+				if (!is_name(d->d_name[i])){
+					valid = false;
 				}
 			}
-			strncpy(filename + 2, d->d_name, strchr(d->d_name, '.') - d->d_name); // strip any extension
+			if (!valid){
+				continue; // skip due to invalid characters
+			}
+			filename[1] = length;
+			memcpy(filename + 2, d->d_name, length);
 			con_puts(&p->console, filename);
 			con_newline(&p->console, true);
 		}
+		closedir(dir);
 	}
 }
 
-- 
2.43.0


From b3473c8ba5c5d9782844c42e42e789cb68aa6a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 049/100] fix: direct mode overran its buffer when CODE$ is
 long; editor program of the wrong size was read past its memory

---
 source/interpreter/program.c | 7 +++++++
 source/system.c              | 6 ++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/program.c b/source/interpreter/program.c
index a176408..8e38b04 100644
--- a/source/interpreter/program.c
+++ b/source/interpreter/program.c
@@ -168,6 +168,12 @@ bool load_prg_internal(struct program* p, const char* filename, bool alloc){
 	}
 	
 	p->size = h.prg_size;
+	if (h.prg_size > MAX_SOURCE_SIZE){
+		iprintf("Program is too large!\n");
+		fclose(f);
+		p->size = 0;
+		return false;
+	}
 	if (alloc){
 		p->data = malloc_log("prg_load", h.prg_size);
 	}
@@ -175,6 +181,7 @@ bool load_prg_internal(struct program* p, const char* filename, bool alloc){
 	if (r < h.prg_size || ferror(f)){
 		iprintf("Could not read file corrcetly!\n");
 		fclose(f);
+		p->size = 0;
 		if (alloc){
 			free_log("prg_load", p->data);
 		}
diff --git a/source/system.c b/source/system.c
index cbedbf3..368ba42 100644
--- a/source/system.c
+++ b/source/system.c
@@ -386,7 +386,9 @@ int launch_system(void* launch_info){
 				{
 				run(prompt_bc, p); // get prompt
 				
-				void* cmd = get_var(&p->vars, "CODE", 4, VAR_STRING)->value.ptr;
+				struct named_var* cmd_var = get_var(&p->vars, "CODE", 4, VAR_STRING);
+				if (!cmd_var) break; // no space for variable, error was set by prompt
+				void* cmd = cmd_var->value.ptr;
 				if (str_comp(cmd, "S\011REM BENCH")){
 					state = LAUNCH_DEBUG;
 					debug = LAUNCH_DEBUG_BENCH;
@@ -412,7 +414,7 @@ int launch_system(void* launch_info){
 				
 				// execute single line
 				// create small program
-				u8 direct_cmd[32+1] = {0};
+				u8 direct_cmd[MAX_STRLEN+1] = {0};
 				struct program prog = {0, (char*)direct_cmd};
 				str_char_copy(cmd, direct_cmd);
 				prog.size = str_len(cmd);
-- 
2.43.0


From dac763a2ca9ec6e87e4b9bd799a3f6b2823c1ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 050/100] fix: PEEK, POKE and ADDR of items that end past the
 memory; ADDR of invalid resources and of over-long or missing names

---
 source/extension/sbc_memory.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index cc411d4..1292a04 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -34,7 +34,7 @@
 		ERROR(ERR_NULL_ADDRESS);\
 	}\
 	if (p->memapi.sys_memsafe){\
-		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX){\
+		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX - ((int)sizeof(type) - 1)){\
 			ERROR(ERR_ILLEGAL_ADDRESS);\
 		} else if (ADDR_ALIGN && ((uintptr_t)addr & invalid_align)){\
 			ERROR(ERR_MISALIGNED_ADDRESS);\
@@ -124,7 +124,7 @@ void cmd_memfill(struct ptc* p){
 		ERROR(ERR_NULL_ADDRESS);\
 	}\
 	if (p->memapi.sys_memsafe){\
-		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX){\
+		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX - ((int)sizeof(type) - 1)){\
 			ERROR(ERR_ILLEGAL_ADDRESS);\
 		} else if (ADDR_ALIGN && ((uintptr_t)addr & invalid_align)){\
 			ERROR(ERR_MISALIGNED_ADDRESS);\
@@ -179,7 +179,7 @@ void func_addr(struct ptc* p){
 	// pointer: (ptr=offset): * (this reads a new pointer from address `offset`)
 	if (addr_type == FUNC_ADDR_DEREF){
 		if (p->memapi.sys_memsafe){
-			if (ofs_num < ADDR_MIN || ofs_num > ADDR_MAX){
+			if (ofs_num < ADDR_MIN || ofs_num > ADDR_MAX - ((int)sizeof(void*) - 1)){
 				ERROR(ERR_ILLEGAL_ADDRESS);
 			} else if (ADDR_ALIGN && (ofs_num & 0x3)){
 				ERROR(ERR_MISALIGNED_ADDRESS);
@@ -205,13 +205,16 @@ void func_addr(struct ptc* p){
 		} else {
 			type |= VAR_NUMBER;
 		}
-		if (len > 17){
-			ERROR(ERR_ILLEGAL_FUNCTION_CALL); // name too long
+		if (len < 2 || len > 17){
+			ERROR(ERR_ILLEGAL_FUNCTION_CALL); // name missing or too long
 		}
 		// get_var
-		char var_name[17]; // skip = at beginning
+		char var_name[17+3]; // skip = at beginning, might end with $[]
 		str_char_copy(resource, (u8*)var_name);
 		struct named_var* v = get_var(&p->vars, var_name+1, len-1, type);
+		if (!v){
+			ERROR(ERR_OUT_OF_MEMORY); // no space for variable
+		}
 		
 		if (addr_type == FUNC_ADDR_VAR_STRUCT){
 			res_ptr = v;
@@ -283,13 +286,14 @@ void func_addr(struct ptc* p){
 				ERROR(ERR_ILLEGAL_OFFSET);
 			}
 		}
-	} else if (len <= 5){
-		res_ptr = str_to_resource(p, resource);
-		if (p->exec.error == ERR_INVALID_RESOURCE_TYPE){
-			p->exec.error = ERR_NONE; // allowed here, retry with variable name
+	} else {
+		struct res_info info = get_verified_resource_type(p, resource);
+		if (!info.data){
+			ERROR(ERR_INVALID_RESOURCE_TYPE);
 		}
+		res_ptr = info.data;
 		if (p->memapi.sys_memsafe){
-			if (ofs < 0 || ofs >= resource_size[get_resource_type(resource)]){
+			if (ofs < 0 || ofs >= resource_size[info.type_id]){
 				ERROR(ERR_ILLEGAL_OFFSET);
 			}
 		}
-- 
2.43.0


From f0b189e67a3093d4bf547008619e5d471acb5ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 051/100] fix: holding a touch and moving off the keys read
 outside of the keyboard; icon page buttons

---
 source/subsystem/panel.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index 9f125c9..8eec7f6 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -325,16 +325,28 @@ const char* key_map =
 "\124\124\124\124\xff\125\125\125\125\126\126\127\127\130\130\130\130\xff\131\131\133\133\133\134\134\134\135\135\135\136\136\136"
 ;
 
+/// Returns the sprite ID of the key at a location, or -1 if there is no key.
+static int key_at(struct panel* p, int x, int y){
+	if (x < 0 || x >= SCREEN_WIDTH || y < 0 || y >= SCREEN_HEIGHT){
+		return -1;
+	}
+	u8 id = key_map[x/8 + 32*(y/8)];
+	if (id == ICON_PAGE_START && p->iconpuse && y >= (SCREEN_HEIGHT - 12)){
+		id = ICON_PAGE_START + 1; // icon page down button (the weird height means this had to be a special case)
+	}
+	return id < PANEL_KEYS ? id : -1;
+}
+
 void press_key(struct ptc* ptc, bool t, int x, int y){
 	struct panel* p = &ptc->panel;
+	int id = key_at(p, x, y);
 	if (!t){
 		p->key_pressed = 0;
 		p->id_pressed = -1;
 		p->pressed_time = 0;
 		return; // no touch = no press
 	} else if (t && p->key_pressed){ // touch and hold
-		char c = key_map[x/8 + 32*(y/8)];
-		if (p->keys[(int)c].vars[0] != p->key_pressed){
+		if (id < 0 || p->keys[id].vars[0] != p->key_pressed){
 			p->key_pressed = 0;
 			p->id_pressed = -1;
 		} else {
@@ -344,13 +356,9 @@ void press_key(struct ptc* ptc, bool t, int x, int y){
 //		return;
 	} else {
 		//press keyboard keys (touching, no previous hold, no previous timer)
-		char c = key_map[x/8 + 32*(y/8)];
-		if (c == '\131' && p->iconpuse && y >= (SCREEN_HEIGHT - 12)){
-			c = '\132'; // icon page down button (the weird height means this had to be a special case)
-		}
-		if (c != '\xff'){
-			p->id_pressed = c;
-			p->key_pressed = p->keys[(int)c].vars[0];
+		if (id >= 0){
+			p->id_pressed = id;
+			p->key_pressed = p->keys[id].vars[0];
 			p->pressed_time = 1;
 		} else {
 			// no key pressed
@@ -359,7 +367,9 @@ void press_key(struct ptc* ptc, bool t, int x, int y){
 	}
 	
 	int pressed_key = get_pressed_key(ptc);
-	if (pressed_key == 80){
+	if (!p->iconpuse){
+		// no icon page buttons
+	} else if (pressed_key == 80){
 		p->iconpage -= INT_TO_FP(p->iconpage > 0);
 	} else if (pressed_key == 81){
 		p->iconpage += INT_TO_FP(p->iconpage < p->iconpmax);
-- 
2.43.0


From e11241c70f664a093f14bb46c67718c77fa901a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 052/100] fix: MAINCNTL became negative half of the time

---
 source/subsystem/sysvars.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/sysvars.c b/source/subsystem/sysvars.c
index 8e2dbb8..49b66bb 100644
--- a/source/subsystem/sysvars.c
+++ b/source/subsystem/sysvars.c
@@ -154,13 +154,13 @@ void sys_tchy(struct ptc* p){
 void sys_maincntl(struct ptc* p){
 	struct value_stack* s = &p->stack;
 	
-	stack_push(s, (struct stack_entry){VAR_NUMBER, {INT_TO_FP((get_time(&p->time) & 0xfffff))}});
+	stack_push(s, (struct stack_entry){VAR_NUMBER, {INT_TO_FP((get_time(&p->time) & 0x7ffff))}});
 }
 
 void sys_maincnth(struct ptc* p){
 	struct value_stack* s = &p->stack;
 	
-	stack_push(s, (struct stack_entry){VAR_NUMBER, {INT_TO_FP((get_time(&p->time) & 0xfffff00000) >> 20)}});
+	stack_push(s, (struct stack_entry){VAR_NUMBER, {INT_TO_FP((get_time(&p->time) >> 19) & 0x7ffff)}});
 }
 
 void sys_freemem(struct ptc* p){
-- 
2.43.0


From f7dc838477a372f876b8fdf8648b8bbd2ad2aeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 053/100] fix: keys without a character read outside of the
 single character strings

---
 source/interpreter/strs.c | 6 ++++--
 source/subsystem/input.c  | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index 70a5736..21ec5d2 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -375,9 +375,11 @@ int to_char(u16 w){
 	} else if (wh == 0xff){
 		if (wl == 0x70) return 0xb0;
 		if (wl == 0xe5) return 0x5c;
-		return wl + 0x20; // TODO:IMPL:LOW returns some false values?
+		if (wl < 0x60) return wl + 0x20;
+		// invalid returns -1
 	} else if (wh == 0x30){
-		return katakana[wl] + 0xa1;
+		// '?' marks unused entries; it is also the value of one used entry
+		if (katakana[wl] != '?' || wl == 0x9c) return katakana[wl] + 0xa1;
 	}
 	iprintf("Error converting u16 to u8 char: 0x%x\n", w);
 	return -1;
diff --git a/source/subsystem/input.c b/source/subsystem/input.c
index 05273c9..edcef73 100644
--- a/source/subsystem/input.c
+++ b/source/subsystem/input.c
@@ -198,9 +198,10 @@ void func_inkey(struct ptc* p){
 		return;
 	}
 	u16 inkey = get_inkey(i);
-	if (inkey){
+	int c = to_char(inkey);
+	if (inkey && c >= 0){
 		//TODO:CODE:LOW Doesn't handle wide characters
-		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = &single_char_strs[3 * to_char(inkey)]}});
+		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = &single_char_strs[3 * c]}});
 	} else {
 		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = empty_str}});
 	}
-- 
2.43.0


From 7739194a2075a39ca766258975c270421b96d471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 054/100] fix: button state read while the frame update changed
 it

---
 source/subsystem/input.c | 52 ++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/source/subsystem/input.c b/source/subsystem/input.c
index edcef73..b8b2d9e 100644
--- a/source/subsystem/input.c
+++ b/source/subsystem/input.c
@@ -6,6 +6,27 @@
 #include "stack.h"
 #include "interpreter/strs.h"
 
+// The button state is written by the frame update and read by the program.
+static void lock_buttons(struct input* i){
+#ifdef PC
+	if (mtx_lock(&i->touch_mtx) == thrd_error){
+		ABORT("button mutex lock failure!");
+	}
+#else
+	(void)i;
+#endif
+}
+
+static void unlock_buttons(struct input* i){
+#ifdef PC
+	if (mtx_unlock(&i->touch_mtx) == thrd_error){
+		ABORT("button mutex unlock failure!");
+	}
+#else
+	(void)i;
+#endif
+}
+
 void init_input(struct input* i){
 	i->button = 0;
 	i->old_button = 0;
@@ -28,6 +49,7 @@ void init_input(struct input* i){
 
 void set_input(struct ptc* p, int b) {
 	struct input* i = &p->input;
+	lock_buttons(i);
 	i->old_button = i->button;
 	i->button = b;
 	
@@ -42,7 +64,9 @@ void set_input(struct ptc* p, int b) {
 	// TODO:CODE:LOW is this thread-safe?
 	// writing to p->exec.error: may be destroyed by a few specific commands?
 	// no issues yet during testing
-	if (i->times[BUTTON_ID_SELECT].frame == 1){
+	bool select = i->times[BUTTON_ID_SELECT].frame == 1;
+	unlock_buttons(i);
+	if (select){
 		p->exec.error = ERR_BREAK;
 	}
 }
@@ -136,11 +160,16 @@ void cmd_brepeat(struct ptc* p){
 	//TODO:IMPL:NONE Figure out what this does and add it maybe?
 	if (id == 12) return;
 	if (p->stack.stack_i == 1){
-		p->input.times[id].start = 0;
-		p->input.times[id].repeat = 0;
+		lock_buttons(&p->input);
+		set_repeat(&p->input, id, 0, 0);
+		unlock_buttons(&p->input);
 	} else {
-		STACK_INT_MIN(1,0,p->input.times[id].start);
-		STACK_INT_MIN(2,0,p->input.times[id].repeat);
+		int start, repeat;
+		STACK_INT_MIN(1,0,start);
+		STACK_INT_MIN(2,0,repeat);
+		lock_buttons(&p->input);
+		set_repeat(&p->input, id, start, repeat);
+		unlock_buttons(&p->input);
 	}
 }
 
@@ -148,9 +177,11 @@ void func_btrig(struct ptc* p){
 	struct input* i = &p->input;
 	
 	s32 b = 0;
+	lock_buttons(i);
 	for (int j = 0; j < BUTTON_COUNT; ++j){
 		b |= check_pressed(i, j) << j;
 	}
+	unlock_buttons(i);
 //	iprintf("button: %d\n", (int)b);
 	stack_push(&p->stack, (struct stack_entry){VAR_NUMBER, {INT_TO_FP(b)}});
 }
@@ -162,15 +193,18 @@ void func_button(struct ptc* p){
 		struct stack_entry* e = stack_pop(&p->stack);
 		mode = VALUE_INT(e);
 	}
-	int button;
+	int button = 0;
 	
+	if (mode < 0 || mode > 3){
+		ERROR(ERR_INVALID_ARGUMENT_VALUE);
+	}
+	lock_buttons(i);
 	switch (mode){
 		case 0:
 			button = i->button;
 			break;
 		
 		case 1:
-			button = 0;
 			for (int j = 0; j < BUTTON_COUNT; ++j){
 				button |= check_pressed(i, j) << j;
 			}
@@ -183,10 +217,8 @@ void func_button(struct ptc* p){
 		case 3:
 			button = ~i->button & i->old_button;
 			break;
-		
-		default:
-			ERROR(ERR_INVALID_ARGUMENT_VALUE);
 	}
+	unlock_buttons(i);
 	
 	stack_push(&p->stack, (struct stack_entry){VAR_NUMBER, {INT_TO_FP(button)}});
 }
-- 
2.43.0


From 6823affefe33ff0f836d7c558ab33601ba40b01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 055/100] fix: ntr_to_ptc missed the end of palettes and did
 not check sizes in its input

---
 util/ntr_to_ptc.c | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/util/ntr_to_ptc.c b/util/ntr_to_ptc.c
index 4677bbc..bc64c83 100644
--- a/util/ntr_to_ptc.c
+++ b/util/ntr_to_ptc.c
@@ -16,6 +16,9 @@
 /// Type string for PTC COL file
 #define PTC_COL_TYPE "PETC0100RCOL"
 
+/// Maximum number of CHR files created from one NCGR file
+#define MAX_CHUNKS 10
+
 // NOTE: CHAR != CHR
 // CHAR is the magic ID within NCGR files.
 // CHR is a filetype in PTC.
@@ -93,6 +96,7 @@ uint32_t read_u32(const char* data){
 int extract_nclr(FILE* f, const char* name){
 	if (strlen(name) != 4){
 		printf("Filename is invalid\n");
+		fclose(f);
 		return FAILURE;
 	}
 	// Skip header
@@ -101,9 +105,15 @@ int extract_nclr(FILE* f, const char* name){
 	char pltt_header[PLTT_HEADER_SIZE];
 	SAFE_FREAD(pltt_header, sizeof(char), PLTT_HEADER_SIZE, f);
 
-	uint32_t pltt_size = read_u32(pltt_header + CHAR_SIZE_OFS) - CHAR_HEADER_SIZE;
-	char* pltt_data = malloc(pltt_size);
-	SAFE_FREAD(pltt_data, sizeof(char), pltt_size, f);
+	uint32_t pltt_size = read_u32(pltt_header + PLTT_SIZE_OFS);
+	if (pltt_size < PLTT_HEADER_SIZE + PTC_COL_BANK_SIZE){
+		printf("Palette is too small\n");
+		fclose(f);
+		return FAILURE;
+	}
+	// Only the first palette is used
+	char pltt_data[PTC_COL_BANK_SIZE];
+	SAFE_FREAD(pltt_data, sizeof(char), PTC_COL_BANK_SIZE, f);
 	fclose(f); // done reading; data is stored in memory
 
 	/// Construct output name
@@ -119,8 +129,11 @@ int extract_nclr(FILE* f, const char* name){
 	SAFE_FWRITE(PTC_COL_TYPE, sizeof(char), strlen(PTC_COL_TYPE), ptc_file);
 	// Write data to file
 	SAFE_FWRITE(pltt_data, sizeof(char), PTC_COL_BANK_SIZE, ptc_file);
-	fclose(ptc_file); // Done writing this file
-	free(pltt_data); // done with PLTT data
+	// Done writing this file
+	if (fclose(ptc_file)){
+		printf("Error writing file %s\n", output_name);
+		return FAILURE;
+	}
 	return SUCCESS;
 }
 
@@ -128,6 +141,7 @@ int extract_nclr(FILE* f, const char* name){
 int extract_ncgr(FILE* f, const char* prefix){
 	if (strlen(prefix) != 3){
 		printf("Filename prefix is invalid\n");
+		fclose(f);
 		return FAILURE;
 	}
 	// Skip header
@@ -136,8 +150,15 @@ int extract_ncgr(FILE* f, const char* prefix){
 	char char_header[CHAR_HEADER_SIZE];
 	SAFE_FREAD(char_header, sizeof(char), CHAR_HEADER_SIZE, f);
 
-	uint32_t char_size = read_u32(char_header + CHAR_SIZE_OFS) - CHAR_HEADER_SIZE;
-	char* char_data = malloc(char_size);
+	uint32_t char_size = read_u32(char_header + CHAR_SIZE_OFS);
+	// Each file name has a single digit
+	if (char_size < CHAR_HEADER_SIZE + PTC_CHR_BANK_SIZE || char_size - CHAR_HEADER_SIZE >= (MAX_CHUNKS + 1) * PTC_CHR_BANK_SIZE){
+		printf("Character data has an unsupported size\n");
+		fclose(f);
+		return FAILURE;
+	}
+	char_size -= CHAR_HEADER_SIZE;
+	static char char_data[(MAX_CHUNKS + 1) * PTC_CHR_BANK_SIZE];
 	SAFE_FREAD(char_data, sizeof(char), char_size, f);
 	fclose(f); // done reading; data is stored in memory
 
@@ -160,9 +181,12 @@ int extract_ncgr(FILE* f, const char* prefix){
 		SAFE_FWRITE(PTC_CHR_TYPE, sizeof(char), strlen(PTC_CHR_TYPE), ptc_file);
 		// Write data to file
 		SAFE_FWRITE(char_data + i * PTC_CHR_BANK_SIZE, sizeof(char), PTC_CHR_BANK_SIZE, ptc_file);
-		fclose(ptc_file); // Done writing this file
+		// Done writing this file
+		if (fclose(ptc_file)){
+			printf("Error writing file %s\n", output_name);
+			return FAILURE;
+		}
 	}
-	free(char_data); // done with CHAR data
 	return SUCCESS;
 }
 
-- 
2.43.0


From e32292c45f6bfaa2c3b9fb68f3341f2b508411cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 056/100] fix: a skipped FOR loop does not stay on the call
 stack

---
 source/interpreter/runner.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 08dcbb9..12671a0 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -539,6 +539,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					}
 					// index now points to one past the NEXT, the correct location
 					r->index = result.index;
+					p->calls.stack_i--; // this loop is over
 				} else {
 					// execution continues as normal into the loop
 				}
-- 
2.43.0


From 2c01d36972b057c67e1e8a27585a4dbea1d7f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 057/100] fix: skipping a FOR loop counts the NEXT with a
 variable of nested loops

---
 source/interpreter/runner.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 12671a0..db0cd4e 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -525,7 +525,8 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 										result.index += 2; // past NEXT [var]
 										break; // ignore nesting?
 									}
-									// ignore otherwise? unclear
+									// otherwise it can only belong to a nested loop
+									if (nest > 1) nest--;
 								} else {
 									// treat as generic next
 									nest--;
-- 
2.43.0


From 9932e6b26bbd0af5aea63aefb710a3add5fe3a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 058/100] fix: a statement followed by REM on its line is no
 longer dropped

---
 source/interpreter/tokens.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 66a36a0..8f21ea2 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1453,8 +1453,8 @@ int tok_name(struct tokenizer* state){
 	} else if (0 <= tok_in_str_index(labels, state->source->data, &state->tokens[state->token_i])){
 		err = tok_label(state);
 	} else if (0 <= tok_in_str_index(comments, state->source->data, &state->tokens[state->token_i])){
-		state->tokens[state->token_i].type = comment;
 		state->is_comment = true;
+		return ERR_NONE; // like ', leaves nothing to convert
 	} else if (0 <= (index = tok_in_str_index(sysvars, state->source->data, &state->tokens[state->token_i]))){
 		state->tokens[state->token_i].type = sysvar;
 		state->tokens[state->token_i].cmd = index; // overrides len
-- 
2.43.0


From fbd7f10f7e79031afaaba12bee04080071ebc4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 059/100] fix: NEXT of an outer loop does not test the variable
 of an inner loop left with GOTO

---
 source/interpreter/flow.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 7c47541..0dde087 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -151,8 +151,9 @@ void cmd_next(struct ptc* p){
 			p->calls.entry[i] = p->calls.entry[i+1];
 		}
 	} else {
-		// loop continues, jump back to this point
-		p->exec.index = to_start;
+		// loop continues after BC_BEGIN_LOOP: the condition was just checked, and
+		// the top of the call stack is not this loop if it was left inside another
+		p->exec.index = to_start + to_size + 2;
 	}
 	// NEXT should clear stack when done
 	p->stack.stack_i = 0;
-- 
2.43.0


From d36dde0da54a0a007ad86438cbe44fbfdd9c921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 060/100] fix: TOKOPT_NO_LABELS keeps the statements that
 follow a label on its line

---
 source/interpreter/tokens.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 8f21ea2..1fcd059 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -328,8 +328,11 @@ int tok_convert(struct tokenizer* state){
 		if (state->opts & TOKOPT_NO_LABELS){
 			// don't compile label into an actual statement
 			// This also breaks the line_length calculation, but that doesn't actually do anything useful right now?
-			state->token_i = 0; // mark tokens as used
-			return ERR_NONE;
+			// The rest of the line still belongs to the program
+			--state->token_i;
+			for (size_t i = 0; i < state->token_i; ++i){
+				state->tokens[i] = state->tokens[i+1];
+			}
 		}
 	}
 	
-- 
2.43.0


From 7aa69bda19978b607b09583c22266efb98acc731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 061/100] fix: IF ... THEN RESTORE @LABEL restores instead of
 jumping to the label

---
 source/interpreter/flow.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 0dde087..4f6c93f 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -192,7 +192,7 @@ void cmd_if(struct ptc* p){
 		int len = label[1];
 		int instr = label[2+len+(len & 1)];
 		int cmd = label[2+len+(len & 1)+1];
-		if (instr == BC_COMMAND && (cmd == CMD_GOSUB || cmd == CMD_GOTO)){
+		if (instr == BC_COMMAND && (cmd == CMD_GOSUB || cmd == CMD_GOTO || cmd == CMD_RESTORE)){
 			// Don't jump because it is handled by next instruction
 		} else {
 			// GOTO label
-- 
2.43.0


From 5284dd01cb8e3a361f5760eeb3ad8eed775cbfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 062/100] fix: DIM, SORT or PRINT before ELSE does not change
 how the ELSE part is translated

---
 source/interpreter/tokens.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 1fcd059..e7b72ee 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1135,6 +1135,10 @@ int tok_eval(struct tokenizer* state){
 					// separator between TRUE/FALSE paths of the IF.
 					tok_eval_clean_stack(&e, 0);
 					e.result[e.result_i++] = state->tokens[i];
+					// what follows does not belong to the previous command
+					is_dim = false;
+					is_sort = false;
+					implicit_commas = true;
 					continue;
 				} else if (state->tokens[i].cmd == CMD_SORT || state->tokens[i].cmd == CMD_RSORT){
 					// SORT, RSORT need arrays for arguments >2, so mark these functions
-- 
2.43.0


From 04c8ed3be9b15017ffaed73bafc359c0c72502f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 063/100] fix: a computed label that does not begin with @ or
 contains CHR$(0) is not found

---
 source/interpreter/label.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/interpreter/label.c b/source/interpreter/label.c
index 9ea56c2..d71fa0a 100644
--- a/source/interpreter/label.c
+++ b/source/interpreter/label.c
@@ -7,6 +7,7 @@
 
 #include <assert.h>
 #include <stdint.h>
+#include <string.h>
 
 struct labels init_labels(int label_count){
 	assert((label_count & (label_count - 1)) == 0); // 2^n
@@ -119,6 +120,11 @@ idx search_label(struct ptc* p, void* label){
 			return p->exec.code.size;
 		}
 		str_char_copy(label, buf);
+		if (buf[0] != '@' || memchr(buf, '\0', len)){
+			// can't be the name of any label either
+			p->exec.error = ERR_LABEL_NOT_FOUND;
+			return p->exec.code.size;
+		}
 		++buf_ptr; // pointer past '@'
 		--len; // remove '@'
 	}
-- 
2.43.0


From 675f69cf28b907f848d83f65bc3fdfa5fff52167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 064/100] fix: assigning a system variable is effective before
 the next statement of the line

---
 source/interpreter/runner.c | 18 ++++++++++++++++++
 source/interpreter/runner.h |  1 +
 2 files changed, 19 insertions(+)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index db0cd4e..7fc6fa1 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -132,6 +132,14 @@ DTCM_DATA const ptc_call ptc_sysvars_valid[] = {
 };
 
 
+/// Validates all sysvars that may have been assigned.
+/// This is what makes an assignment effective, so it must happen before the next statement.
+static inline void validate_pending_sysvars(struct ptc* p){
+	for (uint64_t pending = p->exec.sysvar_pending; pending; pending &= pending - 1){
+		ptc_sysvars_valid[__builtin_ctzll(pending)](p);
+	}
+}
+
 /// Debug function for checking command/function names from IDs
 static inline void print_name(const char* names, int data){
 	char name[9] = {0};
@@ -232,7 +240,10 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					break;
 				}
 				if (ptc_commands[(u32)data]){
+					validate_pending_sysvars(p); // assigned by previous statements
 					ptc_commands[(u32)data](p);
+					validate_pending_sysvars(p); // assigned by this command
+					r->sysvar_pending = 0;
 //					iprintf("End command; %d?<%d %d ", r->index, r->code.size, (int)r->error);
 					print_name(commands, data);
 				} else {
@@ -283,7 +294,11 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					break;
 				}
 				if (ptc_sysvars[(u32)data]){
+					validate_pending_sysvars(p); // assigned by previous statements
 					ptc_sysvars[(u32)data](p);
+					if (ptc_sysvars_valid[(u32)data]){
+						r->sysvar_pending |= (uint64_t)1 << data;
+					}
 				} else {
 					r->error = ERR_UNIMPLEMENTED;
 				}
@@ -297,6 +312,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					break;
 				}
 				if (ptc_sysvars_valid[(u32)data]){
+					r->sysvar_pending &= ~((uint64_t)1 << data);
 					ptc_sysvars_valid[(u32)data](p);
 				} else {
 					r->error = ERR_UNIMPLEMENTED;
@@ -582,6 +598,8 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 		iprintf("\n");
 	}
 
+	validate_pending_sysvars(p);
+	r->sysvar_pending = 0;
 	// store copy of exec state at exit
 	if (p->exec.error)
 		p->exec_old = p->exec;
diff --git a/source/interpreter/runner.h b/source/interpreter/runner.h
index 1fb2e56..93b72c1 100644
--- a/source/interpreter/runner.h
+++ b/source/interpreter/runner.h
@@ -19,6 +19,7 @@ struct runner {
 	idx data_index;
 	idx data_offset; // Should never exceed ~95 anyways
 	int argcount; // Never possible to exceed ~50 in PTC2
+	uint64_t sysvar_pending; // Bitset of sysvars that may have been assigned, but not validated yet
 	u32 error; // I don't even think this will reach 100 right now
 	char error_info[32];
 	struct bytecode code; // Stored in entirety (this only contains pointers)
-- 
2.43.0


From 55cf38f953c556f5a736874bf739de992853e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 065/100] fix: EXP and TAN accept their argument

---
 source/interpreter/tokens.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index e7b72ee..be2a203 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -125,10 +125,10 @@ const char* cmd_format[] = {
 
 const char* func_format[] = {
 	"N","S","N,NN","N","0,N","NN","0","0,N",//BUTTON
-	"NN","N","N","N","","N","NN,NNN","N,NN","0",//ICONCHK
+	"NN","N","N","N","N","N","NN,NNN","N,NN","0",//ICONCHK
 	"0","SS,SSN","SN","S","N","SNN","0","NN","N",//RAD
 	"SN","N","N","N","N","NN","N,NN","",//SPHITRC
-	"NN","N","N","SNNS","","S",//VAL
+	"NN","N","N","SNNS","N","S",//VAL
 	"0",
 	"N","N","N","S,SN","N" // PTR
 };
-- 
2.43.0


From 32bc8b94f82bb3cc48dc7b2eb28c54df90313bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 066/100] fix: GPAINT started on a border pixel does not paint
 the area above it

---
 source/subsystem/graphics.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 6684ecf..a627ee9 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -534,6 +534,9 @@ void cmd_gpaint(struct ptc* p){
 	} else {
 		match = data[grp_index(x,y)];
 	}
+	if (!inside(data, x, y, match, c)){
+		return; // starts at a pixel that is not to be painted
+	}
 	int stack_i = 0;
 	u32 stack[PAINT_STACK_MAX];
 	
-- 
2.43.0


From 6a885a2796d24d3aabfc70a280f538a38a0c8ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 067/100] fix: BGOFS over the whole coordinate range in one
 frame does not overflow

---
 source/subsystem/background.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/background.h b/source/subsystem/background.h
index 261c905..3765ec3 100644
--- a/source/subsystem/background.h
+++ b/source/subsystem/background.h
@@ -29,8 +29,8 @@ struct background {
 		fixp x;
 		fixp y;
 		
-		fixp step_x;
-		fixp step_y;
+		int64_t step_x; // may be larger than any coordinate
+		int64_t step_y;
 		
 		fixp end_x;
 		fixp end_y;
-- 
2.43.0


From 3113c7504a9ea445c400c85a6532a7a75bb97df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 068/100] fix: SPANIM with an invalid loop count leaves the
 animation unchanged

---
 source/subsystem/sprites.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 095a735..eaf9892 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -608,6 +608,10 @@ void cmd_spanim(struct ptc* p){
 	STACK_INT_RANGE(0,0,99,id);
 	STACK_INT_MIN(1,1,chrs);
 	STACK_INT_MIN(2,1,time);
+	int loop = 0;
+	if (p->stack.stack_i != 3){
+		STACK_INT_MIN(3,0,loop);
+	}
 	
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
 	s->anim.chrs = chrs;
@@ -615,15 +619,8 @@ void cmd_spanim(struct ptc* p){
 	s->anim.current_frame = 0;
 	s->anim.current_chr = s->chr;
 	
-	if (p->stack.stack_i == 3){
-		s->anim.loop = 0;
-		s->anim.loop_forever = true;
-	} else {
-		int loop;
-		STACK_INT_MIN(3,0,loop);
-		s->anim.loop = loop;
-		s->anim.loop_forever = loop == 0;
-	}
+	s->anim.loop = loop;
+	s->anim.loop_forever = loop == 0;
 }
 
 void sys_sphitno(struct ptc* p){
-- 
2.43.0


From 730f2edc783c506153a8bc9766c38d45d5e03782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:48 +0000
Subject: [PATCH 069/100] fix: INPUT and LINPUT read the button state under its
 lock

---
 source/subsystem/console.c |  3 +--
 source/subsystem/input.c   | 23 ++++++++++++++++++++---
 source/subsystem/input.h   |  2 ++
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 12b7da6..59b9bd7 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -237,8 +237,7 @@ u16* shared_input(struct ptc* p){
 		// redraw on first frame of hold and first frame of release
 		// TODO:IMPL:LOW Pressing L+R inverts the selection again for the duration held.
 		// it should keep the shift state.
-		if (((p->input.button ^ p->input.old_button) & BUTTON_L) ||
-		    ((p->input.button ^ p->input.old_button) & BUTTON_R)){
+		if (check_changed(&p->input, BUTTON_L | BUTTON_R)){
 			p->panel.shift ^= PNL_SHIFT;
 			refresh_panel(p);
 		} else if ((keyboard == 15 || check_pressed(&p->input, BUTTON_ID_Y))){
diff --git a/source/subsystem/input.c b/source/subsystem/input.c
index b8b2d9e..9e4945f 100644
--- a/source/subsystem/input.c
+++ b/source/subsystem/input.c
@@ -142,13 +142,30 @@ void set_repeat(struct input* i, int button, int start, int repeat){
 	i->times[button].repeat = repeat;
 }
 
+// The buttons must be locked
+static bool button_pressed(struct input* i, int id){
+	return check_repeat(i->times[id].frame, i->times[id].start, i->times[id].repeat);
+}
+
 bool check_pressed_manual(struct input* i, int id, int start, int repeat){
+	lock_buttons(i);
 	int time = i->times[id].frame;
+	unlock_buttons(i);
 	return check_repeat(time, start, repeat);
 }
 
 bool check_pressed(struct input* i, int id){
-	return check_repeat(i->times[id].frame, i->times[id].start, i->times[id].repeat);
+	lock_buttons(i);
+	bool pressed = button_pressed(i, id);
+	unlock_buttons(i);
+	return pressed;
+}
+
+bool check_changed(struct input* i, int mask){
+	lock_buttons(i);
+	bool changed = (i->button ^ i->old_button) & mask;
+	unlock_buttons(i);
+	return changed;
 }
 
 void cmd_brepeat(struct ptc* p){
@@ -179,7 +196,7 @@ void func_btrig(struct ptc* p){
 	s32 b = 0;
 	lock_buttons(i);
 	for (int j = 0; j < BUTTON_COUNT; ++j){
-		b |= check_pressed(i, j) << j;
+		b |= button_pressed(i, j) << j;
 	}
 	unlock_buttons(i);
 //	iprintf("button: %d\n", (int)b);
@@ -206,7 +223,7 @@ void func_button(struct ptc* p){
 		
 		case 1:
 			for (int j = 0; j < BUTTON_COUNT; ++j){
-				button |= check_pressed(i, j) << j;
+				button |= button_pressed(i, j) << j;
 			}
 			break;
 		
diff --git a/source/subsystem/input.h b/source/subsystem/input.h
index 1b3802c..6b6f6e9 100644
--- a/source/subsystem/input.h
+++ b/source/subsystem/input.h
@@ -102,6 +102,8 @@ static inline bool check_repeat(int time, int start, int repeat){
 }
 
 bool check_pressed(struct input* i, int id);
+/// Checks if any button of a mask was pressed or released in this frame.
+bool check_changed(struct input* i, int mask);
 bool check_pressed_manual(struct input* i, int id, int start, int repeat);
 
 void cmd_brepeat(struct ptc* p);
-- 
2.43.0


From 2b574033d1960948242e9fed9faefde717826e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 070/100] fix: keys typed in the frame of a button press are
 not lost by INPUT and LINPUT

---
 source/subsystem/console.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 59b9bd7..a57051a 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -221,26 +221,31 @@ u16* shared_input(struct ptc* p){
 	// enable typing during INPUT/LINPUT if not already active
 	p->panel.type = PNL_KYA; // TODO:IMPL:MED Update panel fully on load
 	set_panel_bg(p, PNL_KYA);
+	int64_t frame = get_time(&p->time);
+	bool buttons;
 	do {
 		// wait for a frame to pass
-		int t = get_time(&p->time);
 		// This test_mode check isn't ideal, but it allows test
 		// cases to run without waiting for an update from another thread
 		inkey = get_inkey(&p->input);
-		keyboard = get_pressed_key(p);
-		while (!inkey && !con->test_mode && t == get_time(&p->time) && !p->exec.error){
+		while (!inkey && !con->test_mode && frame == get_time(&p->time) && !p->exec.error){
 			// sleep for user input
 			struct timespec tspec = {.tv_nsec=FRAME_TENTH_NS};
 			thrd_sleep(&tspec, NULL);
 		}
+		// Buttons and editing keys act once in each frame, and typed characters
+		// are handled as well as them
+		buttons = con->test_mode || !inkey;
+		if (!inkey) frame = get_time(&p->time);
+		keyboard = buttons ? get_pressed_key(p) : 0;
 		// Check for special keys
 		// redraw on first frame of hold and first frame of release
 		// TODO:IMPL:LOW Pressing L+R inverts the selection again for the duration held.
 		// it should keep the shift state.
-		if (check_changed(&p->input, BUTTON_L | BUTTON_R)){
+		if (buttons && check_changed(&p->input, BUTTON_L | BUTTON_R)){
 			p->panel.shift ^= PNL_SHIFT;
 			refresh_panel(p);
-		} else if ((keyboard == 15 || check_pressed(&p->input, BUTTON_ID_Y))){
+		} else if (keyboard == 15 || (buttons && check_pressed(&p->input, BUTTON_ID_Y))){
 			// Copy characters back
 			if (out_index > 0){
 				for (int i = out_index-1; i < (int)out_index_max-1; ++i){
@@ -259,7 +264,12 @@ u16* shared_input(struct ptc* p){
 				}
 				output[--out_index_max] = 0;
 			}
-		} else if (inkey == '\r'){
+		} else if (buttons && check_pressed(&p->input, BUTTON_ID_LEFT)){
+			out_index -= out_index > 0;
+		} else if (buttons && check_pressed(&p->input, BUTTON_ID_RIGHT)){
+			out_index += out_index < out_index_max;
+		}
+		if (inkey == '\r'){
 			// don't add this one
 		} else if (inkey && out_index_max < CONSOLE_WIDTH){
 			if ((p->panel.cursor & ~PNL_INSERT)){ // REPLACE mode
@@ -277,14 +287,10 @@ u16* shared_input(struct ptc* p){
 				output[out_index++] = inkey;
 				++out_index_max;
 			}
-		} else if (check_pressed(&p->input, BUTTON_ID_LEFT)){
-			out_index -= out_index > 0;
-		} else if (check_pressed(&p->input, BUTTON_ID_RIGHT)){
-			out_index += out_index < out_index_max;
 		}
 		p->console.x = out_index;
 	} while (!p->exec.error && inkey != '\r'
-			&& !check_pressed_manual(&p->input, BUTTON_ID_A, 15, 4));
+			&& !(buttons && check_pressed_manual(&p->input, BUTTON_ID_A, 15, 4)));
 	p->panel.type = old_panel;
 	p->console.cursor_visible = false;
 	return output;
-- 
2.43.0


From 89faaa64d7cbb317b268e20b20bda1b0162a4643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 071/100] fix: the insert key switches INPUT and LINPUT to
 overwriting and back

---
 source/subsystem/console.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index a57051a..d448f38 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -271,13 +271,15 @@ u16* shared_input(struct ptc* p){
 		}
 		if (inkey == '\r'){
 			// don't add this one
-		} else if (inkey && out_index_max < CONSOLE_WIDTH){
-			if ((p->panel.cursor & ~PNL_INSERT)){ // REPLACE mode
+		} else if (inkey && !(p->panel.cursor & PNL_INSERT)){ // REPLACE mode
+			if (out_index < CONSOLE_WIDTH){
 				outcol[out_index] = con->col;
 				output[out_index++] = inkey;
 				if (out_index > out_index_max)
 					++out_index_max;
-			} else { // INSERT mode
+			}
+		} else if (inkey){ // INSERT mode
+			if (out_index_max < CONSOLE_WIDTH){
 				// Copy characters past insertion point forward
 				for (int i = out_index_max-1; i >= (int)out_index; --i){
 					outcol[i+1] = outcol[i];
-- 
2.43.0


From ccdacae96ef5f9cba81662f3cb3dbbba768baa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 072/100] fix: INPUT and LINPUT do not miss an editing key when
 L or R changes in the same frame

---
 source/subsystem/console.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index d448f38..2714391 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -245,7 +245,8 @@ u16* shared_input(struct ptc* p){
 		if (buttons && check_changed(&p->input, BUTTON_L | BUTTON_R)){
 			p->panel.shift ^= PNL_SHIFT;
 			refresh_panel(p);
-		} else if (keyboard == 15 || (buttons && check_pressed(&p->input, BUTTON_ID_Y))){
+		}
+		if (keyboard == 15 || (buttons && check_pressed(&p->input, BUTTON_ID_Y))){
 			// Copy characters back
 			if (out_index > 0){
 				for (int i = out_index-1; i < (int)out_index_max-1; ++i){
-- 
2.43.0


From 39b1461cfd3ecfc687ef45e0752fc10a1831f10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 073/100] fix: ADDR("*") of address 0 is an error without
 MEMSAFE, too

---
 source/extension/sbc_memory.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index 1292a04..cc84469 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -183,10 +183,11 @@ void func_addr(struct ptc* p){
 				ERROR(ERR_ILLEGAL_ADDRESS);
 			} else if (ADDR_ALIGN && (ofs_num & 0x3)){
 				ERROR(ERR_MISALIGNED_ADDRESS);
-			} else if (FIXP_TO_PTR(ofs_num) == NULL){
-				ERROR(ERR_NULL_ADDRESS);
 			}
 		}
+		if (FIXP_TO_PTR(ofs_num) == NULL){
+			ERROR(ERR_NULL_ADDRESS);
+		}
 		// dereference this address once
 		void** ptr = (void**)FIXP_TO_PTR(ofs_num);
 		assert(ptr);
-- 
2.43.0


From b6be92acff6cd20919c800e3e590c9326506de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 074/100] fix: ADDR of names that no variable can have created
 unreachable variables

---
 source/extension/sbc_memory.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index cc84469..58cec8c 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -212,6 +212,11 @@ void func_addr(struct ptc* p){
 		// get_var
 		char var_name[17+3]; // skip = at beginning, might end with $[]
 		str_char_copy(resource, (u8*)var_name);
+		for (int i = 1; i < len; ++i){
+			if (!(i == 1 ? is_name_start(var_name[i]) : is_name(var_name[i]))){
+				ERROR(ERR_ILLEGAL_FUNCTION_CALL); // no variable can have this name
+			}
+		}
 		struct named_var* v = get_var(&p->vars, var_name+1, len-1, type);
 		if (!v){
 			ERROR(ERR_OUT_OF_MEMORY); // no space for variable
-- 
2.43.0


From 6085d4afa49e80efbdec8d1ac15ee4cb7262a5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:04 +0000
Subject: [PATCH 075/100] fix: addresses far below the memory overflowed when
 they were checked

---
 source/extension/sbc_memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index 58cec8c..ff77236 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -14,7 +14,7 @@
 #define ADDR_ALIGN false
 // note: do not convert NULL
 // offset by 0x02000000 is aesthetic to have NDS address format (the values will differ)
-#define FIXP_TO_PTR(num) (num ? (u8*)sbc_membase + (num - 0x02000000) : NULL)
+#define FIXP_TO_PTR(num) (num ? (u8*)((uintptr_t)sbc_membase + (intptr_t)(num) - 0x02000000) : NULL)
 #define PTR_TO_FIXP(ptr) (ptr ? (u8*)ptr - (u8*)sbc_membase + 0x02000000 : 0)
 #endif
 // pointer conversion NDS
-- 
2.43.0


From 7d359b0369b48ed5d43984a1be5ebd8de7e0ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:27 +0000
Subject: [PATCH 076/100] fix: SPREAD wrote through a number when given
 something that is no variable

---
 source/interpreter/tokens.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index be2a203..005cffb 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -117,7 +117,7 @@ const char* cmd_format[] = {
 	"NNS,NNSN","S","v","","","SS",//RENAME
 	"L","NNa","0","S","","NNa","NN,NNN,NNNN",//SPANGLE
 	"NNN,NNNN","NN,NNNNNN","0,N","NNNNNN,NNNNNNN","NNN","NNN","NNN,NNNN","N",//SPPAGE
-	"NN,NNN,NNNN,NNNNN,NNNNNN","NN,NNN","NNNNNN,NNNNNNNN","NNN","nn,ss",//SWAP
+	"Nn,Nnn,Nnnn,Nnnnn,Nnnnnn","NN,NNN","NNNNNN,NNNNNNNN","NNN","nn,ss",//SWAP
 	"Snnn",//TMREAD
 	"S", "0", // TALK, TALKSTOP
 	"NN","NN","NN","NNN","NNN", //MEMFILL
-- 
2.43.0


From 9f05cde6e429174c2b17fd7dd428f2819380bbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:43 +0000
Subject: [PATCH 077/100] fix: SWAP of a numeric system variable overwrote the
 one next to it

---
 source/subsystem/variables.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/source/subsystem/variables.c b/source/subsystem/variables.c
index 744081d..3556ab3 100644
--- a/source/subsystem/variables.c
+++ b/source/subsystem/variables.c
@@ -20,8 +20,7 @@ void cmd_swap(struct ptc* p){
 	// Note that swap is swapping values, but those values depend on types
 	struct stack_entry* a = ARG(0);
 	struct stack_entry* b = ARG(1);
-	union value c;
-	
+
 	if ((a->value.ptr == &p->res.mem_ptr || b->value.ptr == &p->res.mem_ptr) && p->res.mem_ptr == &p->res.mem_str){
 		// The storage of MEM$ itself can not be given to another variable
 		struct string* s = get_new_str(&p->strs);
@@ -32,9 +31,16 @@ void cmd_swap(struct ptc* p){
 		s->uses = 1;
 		p->res.mem_ptr = s;
 	}
-	memcpy(&c, a->value.ptr, sizeof(union value)); // copies from pointed-to number or string
-	memcpy(a->value.ptr, b->value.ptr, sizeof(union value));
-	memcpy(b->value.ptr, &c, sizeof(union value));
+	if (a->type & VAR_STRING){
+		void* c = *(void**)a->value.ptr;
+		*(void**)a->value.ptr = *(void**)b->value.ptr;
+		*(void**)b->value.ptr = c;
+	} else {
+		// System variables are only as big as a number
+		fixp c = *(fixp*)a->value.ptr;
+		*(fixp*)a->value.ptr = *(fixp*)b->value.ptr;
+		*(fixp*)b->value.ptr = c;
+	}
 }
 
 #define MAX_SORT_ARRAYS 32
-- 
2.43.0


From f98592eea8401a1358a54f9c6e1a819892f7fa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:28 +0000
Subject: [PATCH 078/100] fix: SORT with no array read past its arguments

---
 source/interpreter/tokens.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 005cffb..718b94c 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -387,6 +387,9 @@ bool check_cmd(const char* stack, int stack_len, const char* valid){
 			if (v != '\0' && v != 'l' && v != 'v'  && v != 'a'){
 				return false; // sequence was incomplete
 			}
+			if (v == 'a' && (!stack_len || stack[stack_len-1] != 'A')){
+				return false; // at least one array is needed
+			}
 			return is_valid;
 		}
 		
-- 
2.43.0


From 927c82dd87cf2caf668a5af577b87707e7b1d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:35 +0000
Subject: [PATCH 079/100] fix: DIM of a cleared array counted its variable
 again

---
 source/interpreter/vars.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index e2b944c..aab6220 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -121,7 +121,8 @@ struct named_var* get_new_arr_var(struct variables* v, char* name, u32 len, enum
 			v->error = ERR_OUT_OF_MEMORY;
 			return NULL;
 		}
-		++v->var_count;
+		// a cleared array is still counted
+		if (var->type == VAR_EMPTY) ++v->var_count;
 		// set var type
 		var->type = type;
 		
-- 
2.43.0


From 8bf3422a5570750bf0ef5fbc91bb16a000f26ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:50 +0000
Subject: [PATCH 080/100] fix: ON, TO and STEP alone handed their values to an
 unrelated statement

---
 source/interpreter/tokens.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 718b94c..52a6a03 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -475,6 +475,7 @@ int tok_test(struct tokenizer* state){
 	char stack[TOKENS_LINE_MAX+2] = {0}; // each token adds at most one entry
 	u8 stack_i = 0;
 	int argc = 0;
+	int last_cmd = -1; // Commands that pass values to the next one
 	
 	const char* valid; // Local used for some cases
 	bool is_valid; // Used by some cases
@@ -511,6 +512,12 @@ int tok_test(struct tokenizer* state){
 					iprintf("Stack: %d %.*s\n", stack_i, stack_i, stack);
 					return ERR_TEST_COMMAND;
 				}
+				// These only exist as a part of another command
+				if ((cmd == CMD_TO && last_cmd != CMD_FOR) || (cmd == CMD_STEP && last_cmd != CMD_TO)
+					|| (last_cmd == CMD_ON && cmd != CMD_GOTO && cmd != CMD_GOSUB)){
+					return ERR_TEST_COMMAND;
+				}
+				last_cmd = cmd;
 				// relies on variable carrying through...
 				// FOR: for assignment
 				// TO: for BC_BEGIN_LOOP
@@ -661,6 +668,7 @@ int tok_test(struct tokenizer* state){
 				
 			case loop_begin:
 				stack_i = 0; // consumes stack elements
+				last_cmd = -1;
 				break;
 				
 			default:
@@ -669,6 +677,8 @@ int tok_test(struct tokenizer* state){
 		}
 	}
 	
+	if (last_cmd == CMD_ON)
+		return ERR_TEST_COMMAND;
 	if (stack_i)
 		return ERR_TEST_STACK;
 	return ERR_NONE;
-- 
2.43.0


From fe9aa6171329740d159d86312c58fb9c0d1bfd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:53 +0000
Subject: [PATCH 081/100] fix: COLINIT read past an empty resource name

---
 source/subsystem/resources.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 836d911..a8b59a5 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -1056,6 +1056,9 @@ void cmd_colinit(struct ptc* p){
 	} else {
 		// COLINIT resource
 		void* res_str = value_str(ARG(0));
+		u8* col_data = get_col_resource(p, res_str);
+		if (!col_data) return; // TODO:ERR:LOW can this happen?
+
 		char id = str_at_char(res_str, 0);
 		if (id == 'B') id = '0';
 		if (id == 'S') id = '1';
@@ -1064,9 +1067,6 @@ void cmd_colinit(struct ptc* p){
 		char name[] = "COLX";
 		name[3] = id;
 
-		u8* col_data = get_col_resource(p, res_str);
-		if (!col_data) return; // TODO:ERR:LOW can this happen?
-
 		if (p->stack.stack_i == 1){
 			load_col(col_data, resource_path, name);
 		} else {
-- 
2.43.0


From 51862bc0a5b097a10085b899119f5333506c6756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:50 +0000
Subject: [PATCH 082/100] fix: a label reference in code without label table
 read through a null pointer

---
 source/interpreter/label.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/interpreter/label.c b/source/interpreter/label.c
index d71fa0a..f670bb1 100644
--- a/source/interpreter/label.c
+++ b/source/interpreter/label.c
@@ -55,6 +55,9 @@ void reset_label(struct labels* l){
 // Finds the location of a previously defined label
 int find_label(struct labels* l, char* name, uint_fast8_t len){
 	struct label_line* label;
+	if (!l->label_count){
+		return -1; // there are no labels at all
+	}
 	u32 hash = name_hash(name, len, l->label_count);
 	u32 step = 0;
 //	unsigned long long checked = 0;
@@ -77,6 +80,9 @@ int find_label(struct labels* l, char* name, uint_fast8_t len){
 // Finds a location for a *new* label
 int find_label_slot(struct labels* l, char* name, uint_fast8_t len){
 	struct label_line* label;
+	if (!l->label_count){
+		return -1; // no space for any label
+	}
 	u32 hash = name_hash(name, len, l->label_count);
 	u32 step = 0;
 
-- 
2.43.0


From 676c41aeb5ea53e59f2321f2520f9b06b8d57c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:05 +0000
Subject: [PATCH 083/100] fix: the editor program's code could outgrow its
 memory and its LABEL labels had no space

---
 source/interpreter/program.c | 7 +++++--
 source/interpreter/program.h | 2 ++
 source/system.c              | 4 ++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/program.c b/source/interpreter/program.c
index 8e38b04..0ac9aa9 100644
--- a/source/interpreter/program.c
+++ b/source/interpreter/program.c
@@ -62,13 +62,16 @@ struct bytecode_params calc_min_bytecode(struct program* p){
 		if (p->data[i] == '\r'){
 			++params.lines;
 			first_of_line = true;
-		} else if (first_of_line && p->data[i] == '@'){
-			// Count labels (only definable at beginning of line)
+		} else if (first_of_line && (p->data[i] == '@' || p->data[i] == 'L' || p->data[i] == 'l')){
+			// Count labels (only definable at beginning of line, as @NAME or LABEL NAME)
 			++params.labels;
+			first_of_line = false;
 		} else if (p->data[i] != ' '){
 			first_of_line = false;
 		}
 	}
+	// Usually less than 2 * size, but fractions without leading digit need more (".5," is 8 bytes)
+	params.size = 3 * p->size;
 	// determine necessary labels size
 	params.labels--;
 	params.labels |= params.labels >> 16;
diff --git a/source/interpreter/program.h b/source/interpreter/program.h
index 360d8d7..e798f79 100644
--- a/source/interpreter/program.h
+++ b/source/interpreter/program.h
@@ -48,6 +48,8 @@ bool load_prg_alloc(struct program* p, const char* filename);
 bool load_prg(struct program* p, const char* filename);
 
 struct bytecode_params {
+	/// Most bytes the code can need
+	int size;
 	int lines;
 	int labels;
 };
diff --git a/source/system.c b/source/system.c
index 368ba42..8839c0f 100644
--- a/source/system.c
+++ b/source/system.c
@@ -350,7 +350,7 @@ int launch_system(void* launch_info){
 
 	// Tokenize launcher into big bytecode block
 	struct bytecode_params params = calc_min_bytecode(&launcher);
-	struct bytecode prompt_bc = init_bytecode_size(2 * launcher.size, params.lines, params.labels);
+	struct bytecode prompt_bc = init_bytecode_size(params.size, params.lines, params.labels);
 
 	// DIRECT setup
 	tokenize_full(&launcher, &prompt_bc, p, TOKOPT_NONE);
@@ -359,7 +359,7 @@ int launch_system(void* launch_info){
 	// Reduce memory fragmentation by loading program into existing memory
 	load_prg(&p->exec.prg, "programs/EDITOR.PTC"); // TODO:CODE:MED move EDITOR to resources
 	params = calc_min_bytecode(&p->exec.prg);
-	struct bytecode editor_bc = init_bytecode_size(2 * p->exec.prg.size, params.lines, params.labels);
+	struct bytecode editor_bc = init_bytecode_size(params.size, params.lines, params.labels);
 	tokenize_full(&p->exec.prg, &editor_bc, p, TOKOPT_VARIABLE_IDS);
 
 	// Setup complete
-- 
2.43.0


From c002ae1c6309bda22c8ac3a4df08fdbe44b1de3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:44 +0000
Subject: [PATCH 084/100] fix: A() and DIM A() crashed or used the array itself
 as a value

---
 source/interpreter/tokens.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 52a6a03..3a35058 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -594,8 +594,8 @@ int tok_test(struct tokenizer* state){
 				
 			case array_name:
 			case name:
-				if (argc > stack_i){
-					return ERR_TEST_ARRAY; // missing subscripts, as in A[,]
+				if (argc > stack_i || (!argc && state->tokens[i].type == array_name)){
+					return ERR_TEST_ARRAY; // missing subscripts, as in A[,] or A()
 				}
 				if (argc){
 					// process argc counts first
@@ -619,8 +619,8 @@ int tok_test(struct tokenizer* state){
 				break;
 				
 			case dim_arr:
-				if (argc > stack_i){
-					return ERR_TEST_ARRAY; // missing subscripts, as in A[,]
+				if (argc > stack_i || !argc){
+					return ERR_TEST_ARRAY; // missing subscripts, as in A[,] or A()
 				}
 				if (argc){
 					// process argc counts first
-- 
2.43.0


From 68dfff277fa0fb4fd6e2bdbcbc11d3d542f74345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:45 +0000
Subject: [PATCH 085/100] fix: GOTO and GOSUB with nothing before a comma
 stopped the system

---
 source/interpreter/flow.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 4f6c93f..67c7be7 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -232,7 +232,9 @@ void cmd_goto_gosub(struct ptc* p, bool push_return){
 	assert(p->stack.stack_i);
 	struct stack_entry* e = ARG(0);
 	void* label = NULL;
-	assert(e->type & (VAR_NUMBER | VAR_STRING));
+	if (!(e->type & (VAR_NUMBER | VAR_STRING))){
+		ERROR(ERR_SYNTAX); // nothing before the first comma
+	}
 	if (e->type & VAR_NUMBER){
 		// Rest of stack contains labels in order
 		int label_i = VALUE_INT(e);
-- 
2.43.0


From 7ae77597b02044f71edc11a551be14ff7570e2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:56 +0000
Subject: [PATCH 086/100] fix: a negative BGOFS drew the wrong background tiles

---
 source/graphics/pc/display_pc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/graphics/pc/display_pc.c b/source/graphics/pc/display_pc.c
index 2394bc9..20986ae 100644
--- a/source/graphics/pc/display_pc.c
+++ b/source/graphics/pc/display_pc.c
@@ -328,8 +328,8 @@ void display_background(struct ptc* p, int screen, int layer){
 //	sfRenderWindow_setView(d->rw, d->view);
 	// 0 - 7 -> 0
 	// tile unit to start at
-	int start_x = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].x) / 8) % BG_WIDTH;
-	int start_y = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].y) / 8) % BG_HEIGHT;
+	int start_x = ((uint32_t)FP_TO_INT(p->background.ofs[screen][layer].x) / 8) % BG_WIDTH;
+	int start_y = ((uint32_t)FP_TO_INT(p->background.ofs[screen][layer].y) / 8) % BG_HEIGHT;
 	// offset within tile
 	float ofs_x = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].x)) % 8;
 	float ofs_y = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].y)) % 8;
-- 
2.43.0


From 6b1e8aea1634e131bda97b986763c1aa5c05cf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 087/100] fix: the search for the pressed panel key read past
 the key table

---
 source/subsystem/panel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index 8eec7f6..c77d00b 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -451,7 +451,7 @@ int get_pressed_key(struct ptc* ptc){
 
 void offset_key(struct ptc* p, int id, int d){
 	if (id<PANEL_KEYS){
-		for (int i = id; p->panel.keys[i].vars[0] == p->panel.key_pressed && i<PANEL_KEYS; ++i){
+		for (int i = id; i<PANEL_KEYS && p->panel.keys[i].vars[0] == p->panel.key_pressed; ++i){
 			p->panel.keys[i].pos.x += d;
 			p->panel.keys[i].pos.y += d;
 		}
-- 
2.43.0


From 9faf45bd9b16e67726204c919b9be59b2d87df56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:06 +0000
Subject: [PATCH 088/100] fix: stopping the prompt ran the previously entered
 line again

---
 source/system.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/source/system.c b/source/system.c
index 8839c0f..0b8a6c6 100644
--- a/source/system.c
+++ b/source/system.c
@@ -388,16 +388,6 @@ int launch_system(void* launch_info){
 				
 				struct named_var* cmd_var = get_var(&p->vars, "CODE", 4, VAR_STRING);
 				if (!cmd_var) break; // no space for variable, error was set by prompt
-				void* cmd = cmd_var->value.ptr;
-				if (str_comp(cmd, "S\011REM BENCH")){
-					state = LAUNCH_DEBUG;
-					debug = LAUNCH_DEBUG_BENCH;
-					break;
-				} else if (str_comp(cmd, "S\11REM LABEL")){
-					state = LAUNCH_DEBUG;
-					debug = LAUNCH_DEBUG_LABEL;
-					break;
-				}
 				// check status
 				if (p->exec.error == ERR_BUTTON_SIGNAL){
 					int sig = p->exec.error_info[0];
@@ -408,10 +398,21 @@ int launch_system(void* launch_info){
 					p->exec.error_info[0] = 0; // clear signal info
 					break;
 				}
-				if (p->exec.error == ERR_SHUTDOWN){
+				if (p->exec.error){
+					break; // interrupted (or shutting down): no line was entered
+				}
+
+				void* cmd = cmd_var->value.ptr;
+				if (str_comp(cmd, "S\011REM BENCH")){
+					state = LAUNCH_DEBUG;
+					debug = LAUNCH_DEBUG_BENCH;
+					break;
+				} else if (str_comp(cmd, "S\11REM LABEL")){
+					state = LAUNCH_DEBUG;
+					debug = LAUNCH_DEBUG_LABEL;
 					break;
 				}
-				
+
 				// execute single line
 				// create small program
 				u8 direct_cmd[MAX_STRLEN+1] = {0};
-- 
2.43.0


From 0219161c3ff94f4805854207ec94f08f4aa17a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:08 +0000
Subject: [PATCH 089/100] fix: starting with a missing program ran the editor's
 program instead of reporting it

---
 source/system.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/system.c b/source/system.c
index 0b8a6c6..97b4744 100644
--- a/source/system.c
+++ b/source/system.c
@@ -449,9 +449,7 @@ int launch_system(void* launch_info){
 				break;
 				
 			case LAUNCH_AUTOLOAD: // auto load program
-				load_program(p, p->res.search_path, info->prg_filename);
-//				p->exec.prg.size = check_load_res((u8*)p->exec.prg.data, p->res.search_path, info->prg_filename, TYPE_PRG);
-				if (!p->exec.prg.size){
+				if (!load_program(p, p->res.search_path, info->prg_filename)){
 					p->exec.error = ERR_FILE_LOAD_FAILED;
 					state = LAUNCH_PROMPT;
 				} else {
-- 
2.43.0


From a3097bbae31aab9634884d724d0257257fc65609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:23 +0000
Subject: [PATCH 090/100] fix: typed kana reached the program as other
 characters

---
 source/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/main.c b/source/main.c
index 7655672..efd7e22 100644
--- a/source/main.c
+++ b/source/main.c
@@ -255,7 +255,7 @@ int main(int argc, char** argv){
 					}
 				} else if (event.text.unicode >= 12289 && event.text.unicode <= 12540){
 					if (to_char(event.text.unicode) >= 0xa1){
-						set_inkey(&ptc->input, event.text.unicode - 12289);
+						set_inkey(&ptc->input, event.text.unicode); // same code as the console character
 					}
 				}
 			}
-- 
2.43.0


From 5f9b992ccf3e343f8a3823f7aebea2cd96f0f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:26 +0000
Subject: [PATCH 091/100] fix: inputs with characters from 0x80 on were changed
 or cut off

---
 source/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/main.c b/source/main.c
index efd7e22..5b13a47 100644
--- a/source/main.c
+++ b/source/main.c
@@ -261,7 +261,7 @@ int main(int argc, char** argv){
 			}
 		}
 		
-		char input;
+		int input; // a byte or EOF
 		if (inputs){
 			//read 128 units per frame
 			bool success = true;
-- 
2.43.0


From 393f1fb63f42d6c1dda682583356aaba5e05e0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:29 +0000
Subject: [PATCH 092/100] fix: a touch went on after the mouse had left the
 lower screen, and a flat window crashed

---
 source/main.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/main.c b/source/main.c
index 5b13a47..cc9cf4a 100644
--- a/source/main.c
+++ b/source/main.c
@@ -293,15 +293,21 @@ int main(int argc, char** argv){
 		
 		sfVector2i pos = sfMouse_getPosition((sfWindow*)window);
 		sfVector2u window_size = sfRenderWindow_getSize(window);
-		if (pos.y >= (int)window_size.y / 2){
+		bool touch = false;
+		int touch_x = 0, touch_y = 0;
+		if (window_size.x && window_size.y / 2 && pos.y >= (int)window_size.y / 2){
 			int tchx = SCREEN_WIDTH * pos.x / window_size.x;
 			int tchy = SCREEN_HEIGHT * pos.y / (window_size.y / 2) - SCREEN_HEIGHT;
 			if (tchx < SCREEN_WIDTH && tchx >= 0 && tchy < SCREEN_HEIGHT && tchy >= 0){
 	//			iprintf("%d,%d\n", tchx, tchy);
-				set_touch(&ptc->input, sfMouse_isButtonPressed(0), tchx, tchy);
-				press_key(ptc, sfMouse_isButtonPressed(0), tchx, tchy);
+				touch = sfMouse_isButtonPressed(0);
+				touch_x = tchx;
+				touch_y = tchy;
 			}
 		}
+		// leaving the lower screen ends a touch, too
+		set_touch(&ptc->input, touch, touch_x, touch_y);
+		press_key(ptc, touch, touch_x, touch_y);
 
 		step_sprites(&ptc->sprites);
 		step_background(&ptc->background);
-- 
2.43.0


From a93a54fed7cfd241e225beb3b757f15617f589d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:32 +0000
Subject: [PATCH 093/100] fix: the mode key switched once per frame while it
 was held

---
 source/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/main.c b/source/main.c
index cc9cf4a..2125dc7 100644
--- a/source/main.c
+++ b/source/main.c
@@ -220,6 +220,7 @@ int main(int argc, char** argv){
 	}
 	
 	int key_mode = 0;
+	bool old_mode_key = false;
 	int keys[MODE_COUNT][KEY_COUNT];
 	FILE* file = fopen("resources/config.txt", "r");
 	if (!file){
@@ -286,10 +287,12 @@ int main(int argc, char** argv){
 		}
 		set_input(ptc, b);
 		
-		if (sfKeyboard_isKeyPressed(keys[key_mode][12])){
-			// change input mode
+		bool mode_key = sfKeyboard_isKeyPressed(keys[key_mode][12]);
+		if (mode_key && !old_mode_key){
+			// change input mode once for each press
 			key_mode = (key_mode + 1) % MODE_COUNT;
 		}
+		old_mode_key = mode_key;
 		
 		sfVector2i pos = sfMouse_getPosition((sfWindow*)window);
 		sfVector2u window_size = sfRenderWindow_getSize(window);
-- 
2.43.0


From ec9790228d8ea7a74a3c953c260e5209fefa565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:36 +0000
Subject: [PATCH 094/100] fix: closing the window could leave the program
 running forever

---
 source/main.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/source/main.c b/source/main.c
index 2125dc7..b08c8bf 100644
--- a/source/main.c
+++ b/source/main.c
@@ -158,6 +158,7 @@ void v__(void); //prevent empty translation unit
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <stdatomic.h>
 #include <string.h>
 #include <threads.h>
 
@@ -179,6 +180,14 @@ enum emu_key_mode {
 // UDLR, ABXY, LR SELECT START, and a special 'toggle mode' key
 #define KEY_COUNT 13
 
+static atomic_bool program_done = false;
+
+int program_thread(void* info){
+	int result = launch_system(info);
+	program_done = true;
+	return result;
+}
+
 int main(int argc, char** argv){
 	init_memory(MAX_MEMORY);
 	
@@ -214,7 +223,7 @@ int main(int argc, char** argv){
 	// Launch the program thread
 	struct launch_info info = {ptc, NULL, argc >= 2 ? argv[1] : NULL};
 	thrd_t prog_thread;
-	if (thrd_success != thrd_create(&prog_thread, launch_system, &info)){
+	if (thrd_success != thrd_create(&prog_thread, program_thread, &info)){
 		printf("Failed to create the program thread!\n");
 		abort();
 	}
@@ -323,8 +332,13 @@ int main(int argc, char** argv){
 	sfRenderWindow_destroy(window);
 
 	// this causes program to stop execution after instruction finishes
-	ptc->exec.error = ERR_SHUTDOWN;
+	// the request is repeated, as the program thread clears its error status
+	// between executions and while it translates a program
 	iprintf("Waiting for program thread to terminate\n");
+	while (!program_done){
+		ptc->exec.error = ERR_SHUTDOWN;
+		thrd_sleep(&(struct timespec){.tv_nsec=(1e7)}, NULL);
+	}
 	thrd_join(prog_thread, NULL);
 
 	free_system(ptc);
-- 
2.43.0


From a9fdc18cdf9d79bb3cf22695dd15e82c735fa691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:13 +0000
Subject: [PATCH 095/100] fix: stopping LINPUT at a full line wrote past the
 end of the line

---
 source/subsystem/console.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 2714391..e53f9d9 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -465,7 +465,11 @@ void cmd_linput(struct ptc* p){
 	con_prompt(con, prompt_str);
 	
 	u16* output = shared_input(p);
-	if (p->exec.error) return;
+	if (p->exec.error){
+		// continue after a line which is already full
+		if (con->x >= CONSOLE_WIDTH) con_newline(con, false);
+		return;
+	}
 
 	// Now store the result to a new string
 	struct string* s = get_new_str(&p->strs);
-- 
2.43.0


From 4db8cdb33b19d076543c77191adea14038a286c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:13 +0000
Subject: [PATCH 096/100] fix: a program stopped between an argument count and
 its use made the next one misread its first variable

---
 source/interpreter/runner.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 7fc6fa1..6245302 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -193,6 +193,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 	r->index = 0;
 	r->data_index = 0;
 	r->data_offset = 0;
+	r->argcount = 0; // in case the last program was stopped before using it
 	p->stack.stack_i = 0;
 	// Strings on the stack of a program that ended with an error are lost
 	recount_str(&p->vars);
-- 
2.43.0


From 944c00d6a3b3dfe239a84149a08466def552a922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:59 +0000
Subject: [PATCH 097/100] fix: refuse INPUT with a prompt but no variable

---
 source/interpreter/tokens.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 3a35058..a0c5c6e 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -390,6 +390,9 @@ bool check_cmd(const char* stack, int stack_len, const char* valid){
 			if (v == 'a' && (!stack_len || stack[stack_len-1] != 'A')){
 				return false; // at least one array is needed
 			}
+			if (v == 'v' && stack[stack_len-1] == ';'){
+				return false; // at least one variable is needed after the prompt
+			}
 			return is_valid;
 		}
 		
-- 
2.43.0


From 24828f5e62f7e7bf47067a21d545f96ce1d1cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:02 +0000
Subject: [PATCH 098/100] fix: begin the loop of a FOR right before ELSE in its
 own branch

---
 source/interpreter/tokens.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index a0c5c6e..61633f4 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1150,6 +1150,10 @@ int tok_eval(struct tokenizer* state){
 					// similar to commas within a command, it is used as a
 					// separator between TRUE/FALSE paths of the IF.
 					tok_eval_clean_stack(&e, 0);
+					if (is_for){ // a FOR before ELSE is complete
+						e.result[e.result_i++] = (struct token){.type=loop_begin, .ofs=0, .len=1, .prio=0};
+						is_for = false;
+					}
 					e.result[e.result_i++] = state->tokens[i];
 					// what follows does not belong to the previous command
 					is_dim = false;
-- 
2.43.0


From 6bfe536a3d24eebef73139bd62e9d989332b03c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:04 +0000
Subject: [PATCH 099/100] fix: missing arguments are noticed anywhere in a line

---
 source/interpreter/tokens.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 61633f4..bddac00 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1108,8 +1108,14 @@ int tok_eval(struct tokenizer* state){
 				if (state->tokens[i].cmd == OP_SEMICOLON){
 					e.result[e.result_i++] = state->tokens[i];
 				} else { // must be a comma here
-					if (!e.result_i || state->tokens[i+1].type == newline || (i>0 && state->tokens[i-1].prio % 8 == 1)){
-						e.result[e.result_i++] = state->tokens[i];
+					u8 prev_type = i ? state->tokens[i-1].type : newline;
+					u8 next_type = state->tokens[i+1].type;
+					if (prev_type == newline || prev_type == command || prev_type == first_of_line_command
+						|| (i>0 && state->tokens[i-1].prio % 8 == 1)){
+						e.result[e.result_i++] = state->tokens[i]; // nothing before it
+					}
+					if (next_type == newline || next_type == command){
+						e.result[e.result_i++] = state->tokens[i]; // nothing after it
 					}
 				}
 			} else {
@@ -1206,8 +1212,16 @@ int tok_eval(struct tokenizer* state){
 			// DON'T push a comma, as this is implied from argument ordering/structure
 			if (state->tokens[i].type != operation || state->tokens[i].cmd != OP_COMMA)
 				e.op_stack[e.op_i++] = &state->tokens[i];
-			else
+			else {
+				struct token* prev = i ? &state->tokens[i-1] : NULL;
+				struct token* next = &state->tokens[i+1];
+				if (next->type == newline || next->type == command
+					|| (next->type == operation && (next->cmd == OP_COMMA || next->cmd == OP_CLOSE_PAREN || next->cmd == OP_CLOSE_BRACKET))
+					|| (prev && prev->type == operation && (prev->cmd == OP_OPEN_PAREN || prev->cmd == OP_OPEN_BRACKET))){
+					return ERR_SYNTAX; // missing argument, as in POW(2,) or A(,1)
+				}
 				e.argc_stack[e.argc_i]++;
+			}
 		} else if (state->tokens[i].type == newline){ 
 			// dim ends
 			tok_eval_clean_stack(&e, 0);
-- 
2.43.0


From 36655501339ea874c1262c464f6569f7776790fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:04 +0000
Subject: [PATCH 100/100] fix: changing characters of a bank named without its
 number redraws that bank

---
 source/subsystem/resources.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index a8b59a5..ba9f82b 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -812,17 +812,18 @@ int get_chr_index(struct ptc* p, const char* res){
 	int res_len = strlen(res);
 	assert(res_len >= 3 && res_len <= 5);
 
+	// same banks as in get_resource_ptr: without a bank number, the upper screen's
 	int index = (res_len <= 3) ? 0 : (res[3] - '0');
 	if (res[0] == 'S'){
 		index += 12;
 		if (res[2] == 'D') { return index + CHR_BANKS; } // always lower
 		if (res[2] == 'K') { return index + CHR_BANKS + 4; } // always lower
 		if (res[2] == 'U') { return index; } // always upper
-		index += CHR_BANKS * ((res_len <= 4) ? p->sprites.page : (res[4] == 'L'));
+		index += CHR_BANKS * ((res_len == 4) ? p->sprites.page : (res_len > 4 && res[4] == 'L'));
 		index += 8;
 	} else { // B
 		index += 0;
-		index += CHR_BANKS * ((res_len <= 4) ? p->background.page : (res[4] == 'L'));
+		index += CHR_BANKS * ((res_len == 4) ? p->background.page : (res_len > 4 && res[4] == 'L'));
 		index += (res[2] == 'D') ? 4 : 0;
 		index += (res[2] == 'U') ? 8 : 0;
 	}
-- 
2.43.0

