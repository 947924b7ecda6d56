From aad476cb19c96d2b4356313c48bfbbb9e7e18342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 01/12] fix: terminate the argp option array

argp reads options until an all-zero entry; the array had none, so argp
read past its end and worked only by luck of the data layout.
---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index a2dcd8f..c70dd1f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -25,6 +25,7 @@ static char *doc = "Gaia assembles a 6502 source code file into a binary file.";
 static struct argp_option options[] = {
 	{"output", 'o', "FILE", 0, "Place assembled binary into <FILE>", 0},
 	// {"cmos",   'c', NULL,   0, "Use 65C02 opcodes",                  0}
+	{0}
 };
 
 // struct used as storage for arg_parse()
-- 
2.43.0


From c0ece7390f5258fabd085eb0ae0a92b18102c1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 02/12] fix: reject tokens after an indexed operand

"LDA $12,X junk" was assembled as if the junk was not there.
---
 src/parser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 2a2bc35..e81a67a 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -111,8 +111,11 @@ int parse_instr_tree(struct Lexer *lexer, int index)
 			// OPERAND,X
 			// OPERAND,Y
 			if (seq[index]->type == TOKEN_X_REGISTER ||
-			    seq[index]->type == TOKEN_Y_REGISTER)
-				return PARSER_SUCCESS;
+			    seq[index]->type == TOKEN_Y_REGISTER) {
+				index++;
+				if (seq[index]->type == TOKEN_NULL)
+					return PARSER_SUCCESS;
+			}
 		}
 	}
 	// #
-- 
2.43.0


From ca3214f315fad24484d08b1ac6ea361d67d4210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 03/12] fix: check the addressing mode of forward-referencing
 jumps

"JMP LATER,X" was accepted and emitted a byte that is no JMP opcode.
---
 src/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index e81a67a..8df36ef 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -569,6 +569,8 @@ int parse_forward_ref_addr_mode(struct Lexer *lexer, struct Instruction *instr)
 		// JSR has only one mode
 		instr->addr_bitflag = addr_mode & ADDR_MODE_ABSOLUTE;
 	}
+	// e.g. JMP LABEL,X is not an addressing mode of JMP
+	instr->addr_bitflag &= instr->addr_bitfield;
 
 	if (!instr->addr_bitflag) {
 		print_error(lexer->line, ERROR_ILLEGAL_ADDRESSING_MODE, NULL,
-- 
2.43.0


From 11c516f682f70170c2e05fec6235d93e76539471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 04/12] fix: reject branch offsets wider than a byte

"BNE $1234" silently assembled as BNE $34.
---
 src/parser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 8df36ef..1834410 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -639,8 +639,10 @@ int parse_addr_mode(struct Lexer *lexer, struct Instruction *instr,
 	} else if (operand->value > 0xFF) {
 		// see comment above in parse_label_operand()
 		// operand value might be an absolute address, but a branch
-		// instruction always has an operand that fits in 1 byte
-		if (!is_branch(instr->mnemonic))
+		// instruction always has an operand that fits in 1 byte.
+		// a literal is the offset itself, so it must fit as written
+		if (!is_branch(instr->mnemonic) ||
+		    operand->type == TOKEN_LITERAL)
 			addr_mode = ABSOLUTE_FIELD;
 		else
 			addr_mode = ZERO_PAGE_FIELD;
-- 
2.43.0


From 153f43eef50446bb0b438738c4c8af481e57606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 05/12] fix: detect too big literals of any length

The 64-bit accumulator wrapped around, so that e.g. $10000000000000005
was taken for $5.
---
 src/lexer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index cfeecb7..beaa683 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -357,8 +357,11 @@ int lex_literal(const char *literal, struct Token *tk)
 	while (*curr) {
 		char_value = (*converter_func)(*curr);
 		if (char_value != ERROR_ILLEGAL_CHAR) {
-			total *= base;
-			total += char_value;
+			// stop once too big, else enough digits would overflow
+			if (total <= 0xFFFF) {
+				total *= base;
+				total += char_value;
+			}
 			num_chars++;
 			curr++;
 		} else if (!is_end_of_token(*curr)) {
-- 
2.43.0


From dc53cc1312eb35be632be6ec07f1353667d82d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 06/12] fix: do not write dummy bytes outside of the forward
 reference

They were written wherever the file position happened to be, which after
an .ORG destroys code emitted earlier or adds bytes after the end.
generate_code() reserves the bytes at the right place anyway.
---
 src/main.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/main.c b/src/main.c
index c70dd1f..28a3af0 100644
--- a/src/main.c
+++ b/src/main.c
@@ -233,12 +233,6 @@ int main(int argc, char *argv[])
 				ABORT_ASSEMBLY();
 			if (IS_ERROR(add_forward_ref(unresolved, ref)))
 				ABORT_ASSEMBLY();
-
-			// write dummy bytes
-			fputc(0x00, outf);
-			fputc(0x00, outf);
-			if (written_bytes == 3)
-				fputc(0x00, outf);
 		} else if (IS_ERROR(return_code)) {
 			ABORT_ASSEMBLY();
 		}
-- 
2.43.0


From da1a3b216ba5d2f2a1d0d663317bfe9a5a4bf310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 07/12] fix: report lines with too many tokens

The assembly ended without any message. As lex_line() says, the parser
is the one to pinpoint the first bad token; let it.
---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 28a3af0..bab336a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -188,7 +188,9 @@ int main(int argc, char *argv[])
 	int total_bytes = 0;
 	while (fgets(buffer, MAX_BUFFER_SIZE, inf)) {
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
-		if (IS_ERROR(return_code))
+		// the parser pinpoints the first of too many tokens
+		if (IS_ERROR(return_code) &&
+		    return_code != ERROR_TOO_MANY_TOKENS)
 			ABORT_ASSEMBLY();
 
 		return_code = parse_line(lexer);
-- 
2.43.0


From ad8a7d8a86261c8f0871f1eeaf45b7ef16072abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 08/12] fix: say so when memory runs out during the assembly

Failing to store a symbol or a forward reference ended the assembly
without any message.
---
 src/main.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index bab336a..4b0b8f9 100644
--- a/src/main.c
+++ b/src/main.c
@@ -201,6 +201,9 @@ int main(int argc, char *argv[])
 		if (first->type == TOKEN_LABEL ||
 		    first->type == TOKEN_DEFINE_DIRECTIVE) {
 			return_code = parse_label_declaration(lexer, symtab, pc);
+			if (return_code == ERROR_MEMORY_ALLOCATION_FAIL)
+				print_error(NULL, return_code, NULL,
+				            args.src_file, -1);
 			if (IS_ERROR(return_code))
 				ABORT_ASSEMBLY();
 		} else if (first->type == TOKEN_BASE ||
@@ -231,10 +234,12 @@ int main(int argc, char *argv[])
 			ref = create_forward_ref(buffer, instr, operand,
 			                         operand_status, pc,
 			                         line_num);
-			if (!ref)
-				ABORT_ASSEMBLY();
-			if (IS_ERROR(add_forward_ref(unresolved, ref)))
+			if (!ref ||
+			    IS_ERROR(add_forward_ref(unresolved, ref))) {
+				print_error(NULL, ERROR_MEMORY_ALLOCATION_FAIL,
+				            NULL, args.src_file, -1);
 				ABORT_ASSEMBLY();
+			}
 		} else if (IS_ERROR(return_code)) {
 			ABORT_ASSEMBLY();
 		}
-- 
2.43.0


From 583010fff885f6a75b25dc829f29ef5f3383c91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 09/12] fix: read source lines of any length

Lines were cut into pieces of 127 characters, each handled as a line:
the tail of a long comment was assembled as code.
---
 src/main.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index 4b0b8f9..30c4056 100644
--- a/src/main.c
+++ b/src/main.c
@@ -4,6 +4,9 @@ The Gaia assembler for 6502 Assembly.
 
 */
 
+// getline()
+#define _POSIX_C_SOURCE 200809L
+
 #include <argp.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -93,6 +96,7 @@ error_t parse_opt(int key, char *arg, struct argp_state *state)
 #define ABORT_ASSEMBLY()                                                     \
 	do {                                                                 \
 		abort_gaia(inf, outf, lexer, tk, instr, symtab, unresolved); \
+		free(buffer);                                                \
 		return EXIT_FAILURE;                                         \
 	} while (0)
 
@@ -104,8 +108,6 @@ error_t parse_opt(int key, char *arg, struct argp_state *state)
 */
 #define IS_ERROR(code) ((code) < 0)
 
-#define MAX_BUFFER_SIZE 128
-
 /* abort_gaia()
 	@inf            source file
 	@outf           assembled binary file
@@ -152,6 +154,8 @@ int main(int argc, char *argv[])
 
 	FILE *inf = NULL;
 	FILE *outf = NULL;
+	char *buffer = NULL;
+	size_t buffer_size = 0;
 	struct Lexer *lexer = init_lexer(args.src_file);
 	struct Token *tk = init_token();
 	struct Instruction *instr = init_instruction();
@@ -176,7 +180,6 @@ int main(int argc, char *argv[])
 		ABORT_ASSEMBLY();
 	}
 
-	char buffer[MAX_BUFFER_SIZE];
 	int line_num = 1;
 	int return_code;
 	int pc = 0x0;
@@ -186,7 +189,8 @@ int main(int argc, char *argv[])
 	int written_bytes = 0;
 	struct ForwardRef *ref;
 	int total_bytes = 0;
-	while (fgets(buffer, MAX_BUFFER_SIZE, inf)) {
+	ssize_t line_length;
+	while ((line_length = getline(&buffer, &buffer_size, inf)) != -1) {
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
 		// the parser pinpoints the first of too many tokens
 		if (IS_ERROR(return_code) &&
@@ -261,6 +265,13 @@ int main(int argc, char *argv[])
 		total_bytes += written_bytes;
 	}
 
+	// reading stopped before the end of the file
+	if (line_length == -1 && !feof(inf)) {
+		print_error(NULL, ERROR_MEMORY_ALLOCATION_FAIL, NULL,
+		            args.src_file, -1);
+		ABORT_ASSEMBLY();
+	}
+
 	int dest_pc;
 	for (int i = 0; i < unresolved->curr; i++) {
 		ref = unresolved->refs[i];
@@ -289,5 +300,6 @@ int main(int argc, char *argv[])
 	destroy_instruction(instr);
 	destroy_symbol_table(symtab);
 	destroy_unresolved(unresolved);
+	free(buffer);
 	return 0;
 }
-- 
2.43.0


From 59f18b6c0cc3b685cc58c4599c8e6633645d553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 10/12] fix: report errors of reading the source and writing
 the output

A full disk, a failing read or a directory given as source ended in
"Assembly successful." and exit status 0.
---
 src/error.c     |  8 ++++++++
 src/error.h     |  2 ++
 src/generator.c | 17 ++++++++++++++---
 src/main.c      | 19 +++++++++++++++----
 4 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/error.c b/src/error.c
index 4bc501b..c5fd1b4 100644
--- a/src/error.c
+++ b/src/error.c
@@ -24,6 +24,8 @@ printed, which is aligned to the error in the source line.
 		ERROR_MEMORY_ALLOCATION_FAIL
 		ERROR_FILE_OPEN_FAIL
 		ERROR_BINARY_FILE_CREATION_FAIL
+		ERROR_FILE_READ_FAIL
+		ERROR_BINARY_FILE_WRITE_FAIL
 	These cases should pass in NULL for @line and @bad_char.
 	The following do not print the error arrow:
 		ERROR_UNKNOWN
@@ -77,6 +79,12 @@ void print_error(const char *line, int error_code, const char *bad_char,
 	case ERROR_BINARY_FILE_CREATION_FAIL:
 		printf("ERROR: assembled binary file could not be created\n");
 		break;
+	case ERROR_FILE_READ_FAIL:
+		printf("ERROR: %s could not be read\n", file_name);
+		break;
+	case ERROR_BINARY_FILE_WRITE_FAIL:
+		printf("ERROR: assembled binary file could not be written\n");
+		break;
 	case ERROR_MISSING_LABEL_DEFINITION:
 		printf("ERROR: label definition was not found\n");
 		break;
diff --git a/src/error.h b/src/error.h
index 6fe0355..92812d1 100644
--- a/src/error.h
+++ b/src/error.h
@@ -39,6 +39,8 @@ Error codes used by the assembler. Also a prototype to print error messages.
 #define ERROR_MISSING_LABEL_DEFINITION  -18
 #define ERROR_ILLEGAL_DIRECTIVE         -19
 #define ERROR_ILLEGAL_BASE              -20
+#define ERROR_FILE_READ_FAIL            -21
+#define ERROR_BINARY_FILE_WRITE_FAIL    -22
 /*
 ;       ;       ;       ;       ;       ;
 */
diff --git a/src/generator.c b/src/generator.c
index c4ffdc4..b3b0dbb 100644
--- a/src/generator.c
+++ b/src/generator.c
@@ -36,7 +36,10 @@ int generate_code(FILE *f, struct Instruction *instr, struct Token *operand,
 {
 	instr->opcode = get_opcode(instr);
 
-	fseek(f, curr_pc, SEEK_SET);
+	if (fseek(f, curr_pc, SEEK_SET)) {
+		print_error(NULL, ERROR_BINARY_FILE_WRITE_FAIL, NULL, NULL, -1);
+		return ERROR_BINARY_FILE_WRITE_FAIL;
+	}
 	fputc(instr->opcode, f);
 
 	int operand_bytes;
@@ -163,7 +166,11 @@ int resolve_forward_ref(FILE *f, struct ForwardRef *ref, struct Lexer *lexer,
 
 		if (instr->addr_bitflag) {
 			instr->opcode = get_opcode(instr);
-			fseek(f, ref->pc, SEEK_SET);
+			if (fseek(f, ref->pc, SEEK_SET)) {
+				print_error(NULL, ERROR_BINARY_FILE_WRITE_FAIL,
+				            NULL, NULL, -1);
+				return ERROR_BINARY_FILE_WRITE_FAIL;
+			}
 			fputc(instr->opcode, f);
 			fputc(offset & 0xFF, f);
 			return TWO_BYTES;
@@ -176,7 +183,11 @@ int resolve_forward_ref(FILE *f, struct ForwardRef *ref, struct Lexer *lexer,
 	} else if (ref->operand_status == JUMP_FORWARD_REFERENCE) {
 		if (instr->addr_bitflag) {
 			instr->opcode = get_opcode(instr);
-			fseek(f, ref->pc, SEEK_SET);
+			if (fseek(f, ref->pc, SEEK_SET)) {
+				print_error(NULL, ERROR_BINARY_FILE_WRITE_FAIL,
+				            NULL, NULL, -1);
+				return ERROR_BINARY_FILE_WRITE_FAIL;
+			}
 			fputc(instr->opcode, f);
 			fputc(dest_pc & 0xFF, f);
 			fputc(dest_pc >> 8, f);
diff --git a/src/main.c b/src/main.c
index 30c4056..41d02eb 100644
--- a/src/main.c
+++ b/src/main.c
@@ -265,9 +265,10 @@ int main(int argc, char *argv[])
 		total_bytes += written_bytes;
 	}
 
-	// reading stopped before the end of the file
-	if (line_length == -1 && !feof(inf)) {
-		print_error(NULL, ERROR_MEMORY_ALLOCATION_FAIL, NULL,
+	// reading failed, or stopped before the end of the file
+	if (ferror(inf) || (line_length == -1 && !feof(inf))) {
+		print_error(NULL, ferror(inf) ? ERROR_FILE_READ_FAIL :
+		            ERROR_MEMORY_ALLOCATION_FAIL, NULL,
 		            args.src_file, -1);
 		ABORT_ASSEMBLY();
 	}
@@ -289,12 +290,22 @@ int main(int argc, char *argv[])
 			ABORT_ASSEMBLY();
 	}
 
+	// buffered bytes may only now turn out to be unwritable
+	int write_failed = ferror(outf);
+	if (fclose(outf))
+		write_failed = 1;
+	outf = NULL;
+	if (write_failed) {
+		print_error(NULL, ERROR_BINARY_FILE_WRITE_FAIL, NULL,
+		            args.src_file, -1);
+		ABORT_ASSEMBLY();
+	}
+
 	printf("Assembly successful.\n");
 	printf("%i (0x%04x) bytes assembled.\n", total_bytes, total_bytes);
 	printf("%i symbols.\n", symtab->count);
 
 	fclose(inf);
-	fclose(outf);
 	destroy_lexer(lexer);
 	destroy_token(tk);
 	destroy_instruction(instr);
-- 
2.43.0


From 1cd8a5b790947ab60dc0ef90b179ac7d1833996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 11/12] fix: do not overwrite the source file with the output

"gaia prog.asm -o prog.asm" emptied the source before reading it and
reported success.
---
 src/main.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 41d02eb..bf605c4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -10,6 +10,7 @@ The Gaia assembler for 6502 Assembly.
 #include <argp.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <sys/stat.h>
 
 #include "error.h"
 #include "forward_reference.h"
@@ -108,6 +109,19 @@ error_t parse_opt(int key, char *arg, struct argp_state *state)
 */
 #define IS_ERROR(code) ((code) < 0)
 
+/* is_same_file()
+	@inf            opened file
+	@name           name of a file, which may not exist
+
+	@return         1 if @name refers to the file opened as @inf, 0 if not
+*/
+static int is_same_file(FILE *inf, const char *name)
+{
+	struct stat opened, named;
+	return !fstat(fileno(inf), &opened) && !stat(name, &named) &&
+	       opened.st_dev == named.st_dev && opened.st_ino == named.st_ino;
+}
+
 /* abort_gaia()
 	@inf            source file
 	@outf           assembled binary file
@@ -173,7 +187,9 @@ int main(int argc, char *argv[])
 		            -1);
 		ABORT_ASSEMBLY();
 	}
-	outf = fopen(args.out_file, "wb");
+	// opening the source file for writing would empty it
+	if (!is_same_file(inf, args.out_file))
+		outf = fopen(args.out_file, "wb");
 	if (!outf) {
 		print_error(NULL, ERROR_BINARY_FILE_CREATION_FAIL, NULL,
 		            args.src_file, -1);
-- 
2.43.0


From 0b580772914838760c7bcccafdd1ef254108f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:00 +0000
Subject: [PATCH 12/12] fix: keep growing the symbol table beyond 21 million
 symbols

The load factor was computed as count * 100 in an int. From 21474836
symbols on that overflows, the table is never enlarged again, and with
55 million symbols it is full, so that a search for a free slot never
ends.
---
 src/symbol_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_table.c b/src/symbol_table.c
index dc1237b..0cf35b7 100644
--- a/src/symbol_table.c
+++ b/src/symbol_table.c
@@ -167,7 +167,7 @@ int insert_symbol(struct SymbolTable *symtab, const char *label,
 {
 	// check load factor first
 	// if you insert first then you might have to hash it again -- waste!
-	int load = ((symtab->count + 1) * 100) / symtab->size;
+	int load = ((symtab->count + 1LL) * 100) / symtab->size;
 	if (load > 50) {
 		if (!resize_symbols(symtab))
 			return ERROR_MEMORY_ALLOCATION_FAIL;
-- 
2.43.0

