# Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)
import json
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,title
    print(json.dumps(d,ensure_ascii=False))
LX='src/lexer/mod.rs'
V='AST shape visitor, cfg lolcode_verif (src/parser/verif.rs)'
p('C01','Tokenizing any text ends with a result; only an unclosed OBTW is an error',
 'For every text, tokenizing terminates without panicking. It fails exactly when an OBTW comment is opened and no TLDR follows it anywhere in the rest of the text, and the reported range then spans from that OBTW to the end of the text; every other text gives a token list.',
 ['inputs'],'every UTF-8 string, including non-ASCII characters anywhere (in strings, comments, identifiers or alone) and texts that stop in the middle of a token',
 'There is no lexer test that feeds text at all: the test suite builds tokens by hand, so no byte sequence is ever sliced, and the panics on multi-byte characters and at end of input need specific characters at specific places.',
 [LX,'src/lexer/token.rs'],[('main tokenizer loop: each recogniser must consume at least one whole character',LX+': tokenize'),('unclosed comment error',LX+': parse_multi_line_comment')],['tokenize','tokenize_and_parse'])
p('C02','Tokens cover the text in order, and only blanks fall between them',
 'For every text that tokenizes, the byte ranges of the tokens are non-empty, in increasing order, do not overlap and lie on character boundaries inside of the text. The text not covered by any token consists only of spaces, tabs and line feeds, so nothing else is dropped and no blank outside of a string, a comment or a multi-word keyword becomes part of a token.',
 ['inputs'],'every text, every adjacency of two tokens with or without blanks between them',
 'Tests never compare token ranges with a source text; a recogniser that consumes one byte more or less than its token shows only for particular neighbours.',
 [LX,'src/lexer/range.rs'],[('make_token advances the rest of the text by what the token spans',LX+': make_token'),('blank skipping',LX+': parse_whitespace')],['tokenize'])
p('C03','Token positions point at the true line, column, byte and character',
 'For every text, each token start and end position reports: the line as 1 plus the number of line feeds before it; the column as 1 plus the bytes since the last line feed; and the byte and character offsets as the number of bytes and characters before it. This also holds after tokens that span lines (multi-line comments, strings) and after non-ASCII characters.',
 ['inputs'],'every text: any mixture of line feeds, blanks, multi-line tokens and multi-byte characters before the token',
 'The only text with positions in the repository is one doc example on line 1, and it does not even compile; positions are accumulated state, so an error appears only after particular earlier tokens.',
 ['src/lexer/position.rs',LX],[('position arithmetic over consumed text','src/lexer/position.rs: Add/AddAssign<&str>'),('blank skipping',LX+': parse_whitespace')],['Token.range','TokenError range'],None,
 [('Position','line, column, bytes, chars of a point of the text','src/lexer/position.rs')])
p('C04','Every token has the kind and payload its own text spells',
 'Each token agrees with the slice of the text it covers: an identifier is a maximal run of ASCII letters and underscores and carries exactly that text; a symbol is exactly one character that starts no other token; comma, "!", "?", "\'Z", "..." and "…" have their own kinds; WIN, FAIL and NOOB are values; a keyword token covers exactly its spelling. No token\'s text is that of another kind.',
 ['inputs'],'every text and every token in it',
 'No test goes from text to tokens; which recogniser wins depends on the order they are tried in and on the characters that follow.',
 [LX,'src/lexer/token.rs','src/lexer/keywords.rs'],[('ordered list of recognisers',LX+': tokenize')],['Token.token_type','Token.range'])
p('C05','Every keyword is recognised, and only as whole words',
 'Each LOLCODE keyword, written with single spaces between its words and not followed by a letter or underscore, becomes that one keyword token (or the boolean, NOOB or comment it denotes) wherever a token can start. A word that merely begins with a keyword, such as "Apple", "ANYTHING" or "WINDOW", is one identifier, and of two keywords that share a beginning the one actually written is chosen. Only the comment markers BTW and OBTW start their comment whatever follows them.',
 ['inputs'],'all keywords, with any character before and after them and any identifier that has a keyword as a proper prefix or is a proper prefix of a keyword',
 'Tests construct keyword tokens directly. There are 60 keywords sharing prefixes, matched in declaration order, and infinitely many words that begin with one.',
 ['src/lexer/keywords.rs',LX,'lolcode-ast-derive/src/lib.rs'],[('keyword table derived from the enum','lolcode-ast-derive/src/lib.rs'),('first match in declaration order with a word boundary',LX+': parse_keyword')],['tokenize'])
p('C06','String literals end at the first unescaped quote and keep their content',
 'A double quote opens a string literal that ends at the first quote not escaped by a colon (:" is a quote inside of the string, :: is an escaped colon and escapes nothing), and the value is exactly the text between both quotes, escapes kept as written. Line feeds, keywords, comment markers and non-ASCII characters inside are content; when no closing quote exists the literal extends to the end of the text.',
 ['inputs'],'all string contents: any sequence of colons, quotes, line feeds and multi-byte characters, any text after the string',
 'There is no test of a string literal from text. Escape handling is a small state machine whose errors need particular runs of colons and quotes.',
 [LX],[('string scanner',LX+': parse_string')],['tokenize'])
p('C07','Number literals are maximal, exact, and recognised wherever they stand',
 'An optional sign followed by digits with at most one dot (and at least one digit) is one number token covering the longest such text: without a dot its value is the exact integer (for values of 32 bits), with a dot it is the closest 32-bit float. This holds whatever follows the number, including the end of the text, and a sign or dot with no digit is a symbol.',
 ['inputs'],'all digit strings with values in the 32-bit range, signs, dots and all following characters or end of text',
 'No test tokenizes a number; value, extent and what follows are independent dimensions.',
 [LX],[('number scanner',LX+': parse_number')],['tokenize'])
p('C08','Comments swallow exactly their own text',
 'BTW starts a comment that extends up to, and not including, the next line feed or the end of the text; OBTW starts a comment that extends through the first TLDR after it, over any number of lines. The payload is exactly the text between the markers, and what comes before and after a comment is tokenized as if the comment were a blank.',
 ['inputs'],'all comment bodies (with quotes, keywords, markers, non-ASCII characters, line feeds) and all surroundings',
 'No test has a comment in a text; the comment body is arbitrary text.',
 [LX],[('single line comments',LX+': parse_single_line_comment'),('multi line comments',LX+': parse_multi_line_comment')],['tokenize'])
p('C09','Tokenization of a line does not depend on the text around it',
 'Splitting a text at a line feed that lies in no string and no comment, tokenizing both parts separately and shifting the second part\'s positions gives exactly the tokens of the whole text. Extra spaces, tabs or line feeds between two tokens change positions only (after a BTW comment the blank has to follow the line feed that ends it, for what is on its line is part of it).',
 ['inputs'],'all pairs of texts, all blanks inserted between tokens',
 'It relates two runs of the tokenizer; the tests contain no run from text at all.',
 [LX],[('the tokenizer keeps no state but the position',LX+': tokenize')],['tokenize'])
p('C10','Parsing any token list ends with a block and never panics',
 'For every list of tokens - any kinds in any order on any non-decreasing lines, including lists no tokenizer produces - parsing terminates without panicking and returns a block. Anything that is not understood is an error node in that block.',
 ['inputs'],'all token sequences: every kind at every position, every distribution over lines, truncated statements and blocks, unsupported operators',
 'Tests parse a few dozen hand-made valid statements and single-step error cases; the panicking arms (unreachable!, todo!) need a particular token after a particular prefix.',
 ['src/parser/statements/mod.rs','src/parser/blocks.rs','src/parser/expression/mod.rs','src/parser/statement_iterator.rs'],[('statement dispatch','src/parser/statements/mod.rs: parse_statement'),('expression dispatch','src/parser/expression/mod.rs: ASTExpression::parse'),('block loop','src/parser/blocks.rs: parse_block')],['parse'])
p('C11','Expressions become the tree that their prefix notation spells',
 'Parsing an expression yields: a literal for a value; a variable access with all of its \'Z slots and SRS markers for a name; the operator\'s own node with exactly its two operands in order for the binary operators (the AN between them optional); one operand for NOT; and for ALL OF, ANY OF and SMOOSH every operand up to MKAY or the end of the statement. Nested operators are grouped strictly by arity, and every operator keyword gives its own operation.',
 ['inputs'],'all token sequences in expression position: every operator, every nesting and every optional AN and MKAY, complete or truncated',
 'The tests build a handful of trees; grouping by arity has to hold for every nesting, and each of the 16 operators has its own arm.',
 ['src/parser/expression/mod.rs','src/parser/expression/binary_operation.rs','src/parser/expression/nary_operations.rs','src/parser/expression/unary_operation.rs','src/parser/expression/variable_access.rs','src/parser/expression/identifier.rs'],[('recursive descent by operator arity','src/parser/expression/mod.rs: ASTExpression::parse'),('slot accesses','src/parser/expression/variable_access.rs: parse')],['parse'],V)
p('C12','The tokens and the range of an expression are those it was parsed from',
 'For every parsed expression, iterating its tokens yields exactly the tokens consumed to build it, each once and in source order (operators, operands, AN, MKAY, SRS and \'Z included), and its range starts at the start of the first and ends at the end of the last of them. The same holds for each sub-expression, variable access, and for assignment statements.',
 ['inputs'],'all expression trees: every operator, nesting, number of operands and optional token',
 'Tests iterate two or three fixed trees; the iterators are hand-written state machines over recursive structures, and the range of an n-ary operation depends on which optional token is last.',
 ['src/parser/expression/mod.rs','src/parser/expression/binary_operation.rs','src/parser/expression/nary_operations.rs','src/parser/expression/unary_operation.rs','src/parser/expression/variable_access_iterator.rs','src/parser/expression/identifier_iterator.rs','src/parser/statements/assignment.rs'],[('token iterators','src/parser/expression/*: *Iterator'),('ranges','src/parser/expression/mod.rs: ASTExpression::range')],['ASTExpression::tokens','ASTExpression::range'],V)
p('C13','Each simple statement becomes its own node with its parts in place',
 'A line beginning with I HAS A, VISIBLE, GIMMEH, FOUND YR, I IZ, HAI, KTHXBYE, GTFO or a variable (followed by R, HAS A or nothing) becomes the node of that statement. Its name, slot accesses, type or value, arguments, version and exclamation mark are exactly the parts written, in the order written, and optional parts are absent exactly when not written.',
 ['inputs'],'all statements of these kinds, with every optional part present or absent and any number of arguments',
 'Each statement has one to three example tests; combinations of optional parts, argument counts and kinds of value are unbounded.',
 ['src/parser/statements/mod.rs','src/parser/statements/i_has_a.rs','src/parser/statements/visible.rs','src/parser/statements/gimmeh.rs','src/parser/statements/found_yr.rs','src/parser/statements/i_is.rs','src/parser/statements/hai.rs','src/parser/statements/assignment.rs','src/parser/statements/bukkit_set_slot.rs'],[('statement dispatch','src/parser/statements/mod.rs: parse_statement')],['parse'],V)
p('C14','Blocks hold exactly the statements between their markers, at any nesting',
 'O RLY? with its YA RLY, MEBBE and NO WAI branches, WTF? with its OMG and OMGWTF cases, IM IN YR loops and HOW IZ I functions each contain exactly the statements written between their markers, in order, also when a block is empty or blocks of any kind are nested in each other. Labels, operations, conditions, case values, names and arguments are those written, and the statements after the closing marker belong to the enclosing block.',
 ['inputs'],'all nestings of the four block statements, with every optional branch present or absent and blocks of any length including zero',
 'Tests cover one or two flat examples of each block with non-empty bodies; nesting and empty bodies multiply.',
 ['src/parser/blocks.rs','src/parser/statements/o_rly.rs','src/parser/statements/wtf.rs','src/parser/statements/im_in_yr.rs','src/parser/statements/how_is_i.rs'],[('stop tokens per kind of block','src/parser/blocks.rs: parse_block_*')],['parse'],V)
p('C15','An error stays inside its own statement',
 'For two token lists A and B where every block opened in A is closed in A and A does not end in an ellipsis, parsing A and then B on later lines gives the nodes of A followed by the nodes of B, whatever errors A contains. In particular a malformed statement or block header never swallows, merges with or drops a statement of a following line.',
 ['inputs'],'all pairs of token lists, well formed or not, in which the first leaves no block open',
 'It relates three parser runs, and the error paths that lose the place in the statement need a malformed statement followed by something else; tests parse malformed statements alone.',
 ['src/parser/blocks.rs','src/parser/statement_iterator.rs'],[('resynchronisation at the next statement','src/parser/statement_iterator.rs: next_statement'),('block loop','src/parser/blocks.rs: parse_block')],['parse'],V)
p('C16','A comma separates statements exactly as a line break does',
 'Replacing any line break between two statements by a comma on the same line, or a comma by a line break, leaves the resulting tree unchanged apart from the positions of its tokens. Repeated, leading and trailing commas and empty lines add nothing.',
 ['inputs'],'all token lists, every choice of comma or line break at each statement boundary, any number of commas',
 'It relates runs on different layouts; no test parses a comma.',
 ['src/parser/statement_iterator.rs'],[('statement boundaries','src/parser/statement_iterator.rs: next/next_statement')],['parse'],V,
 [('current_line','the line whose tokens belong to the current statement','src/parser/statement_iterator.rs')])
p('C17','An ellipsis joins lines into one statement',
 'When a line ends in an ellipsis ("..." or "…"), the statement goes on with the next token, on whatever later line it is: the tree is the same as if everything had been written on one line without the ellipsis. This holds at every point inside of a statement, for several ellipses, and with commas and further statements around them.',
 ['inputs'],'all token lists, an ellipsis and line break inserted at any set of points',
 'It relates runs on different layouts; no test contains an ellipsis.',
 ['src/parser/statement_iterator.rs'],[('continuation handling','src/parser/statement_iterator.rs: next')],['parse'],V)
p('C18','Comments do not affect the tree',
 'Removing the comment tokens from a token list does not change the result of parsing it, wherever the comments stand: on lines of their own, after a statement, inside of one, between a block header and its body, or before a line break joined by an ellipsis.',
 ['inputs'],'all token lists with comments inserted at any set of points',
 'It relates two runs; no test parses a comment token.',
 ['src/parser/statement_iterator.rs','src/parser/mod.rs'],[('comments are filtered before parsing','src/parser/statement_iterator.rs: new')],['parse'],V)
p('C19','Error nodes name the right problem and the offending tokens',
 'A malformed statement yields the error documented for its first problem, carrying the token the documentation names: the unexpected token itself, or the token after which something is missing. Tokens left over after a complete statement are reported, all of them and in order, in one error that follows the statement.',
 ['inputs'],'all malformed statements: every way to truncate, extend or replace a token of a statement or block',
 'Tests have one example for about half of the error kinds; each statement can go wrong at each of its tokens.',
 ['src/parser/error.rs','src/parser/statements/','src/parser/expression/mod.rs','src/parser/statement_iterator.rs'],[('errors returned by each statement parser','src/parser/statements/*.rs'),('left-over tokens','src/parser/blocks.rs: parse_block')],['parse'],V)
p('C20','Iterating errors finds every error node once, in source order',
 'For every block, iterating its errors yields each error node in it and in all blocks nested in it (loop and function bodies, all branches and cases), each exactly once and in the order in which they appear in the source, and terminates. A block with no error node yields nothing.',
 ['inputs'],'all trees: errors at any depth, in any branch, around and between nested blocks',
 'No test iterates errors; the traversal order over nested blocks needs several errors in different branches.',
 ['src/parser/blocks.rs'],[('depth first traversal','src/parser/blocks.rs: ASTBlockErrorIterator')],['ASTBlock::iter_errors'],V)
p('C21','Tokenizing and parsing in one call equals doing both steps',
 'For every text, the combined entry point returns the tokenizer\'s error if and only if tokenizing fails, and otherwise the very tree that parsing the tokenizer\'s tokens gives. A program written as text thus gives the same tree as its tokens, in every layout the tokenizer accepts.',
 ['inputs'],'all texts','The only test of the combined entry point is a doc example that does not compile.',
 ['src/lib.rs'],[('composition','src/lib.rs: tokenize_and_parse')],['tokenize_and_parse'],V)
p('C22','Trees are made of input tokens, unchanged, in source order, used once',
 'Every token in a parsed tree is one of the tokens given to the parser, with its kind, payload and range unchanged. Reading the tree from left to right, error nodes included, the tokens appear in source order and none appears twice, except that an error about a missing part may name a token of its own statement.',
 ['inputs'],'all token lists','Tests compare trees built from the same expected tokens for a few inputs; misplaced or duplicated tokens show on particular combinations of optional parts.',
 ['src/parser/'],[('tokens are moved from the iterator into the tree','src/parser/statements/*.rs, src/parser/expression/*.rs')],['parse'],V)
p('C23','Positions compare consistently with their place in the text',
 'For positions of one text, two positions are equal exactly when they denote the same place and ordered as their places are ordered, so equality, ordering and ranges built from them agree with each other. Advancing a position by a text and then by another gives the same position as advancing it by both at once, and by the empty text leaves it unchanged.',
 ['inputs'],'all pairs of positions of a text, all texts to advance by',
 'No test compares positions; equality looks at line and column while ordering looks at bytes, so they agree only if all four coordinates are always kept in step.',
 ['src/lexer/position.rs','src/lexer/range.rs'],[('PartialEq on line and column, PartialOrd on bytes','src/lexer/position.rs'),('Add, AddAssign<&str>','src/lexer/position.rs')],['Position','Range'])
p('C24','Nesting depth does not exhaust the stack',
 'Programs with arbitrarily deep nesting of expressions or blocks are parsed, or rejected, without exhausting the call stack.',
 ['inputs'],'nesting depths up to the size of any input',
 'No test nests deeper than two.',
 ['src/parser/expression/mod.rs','src/parser/blocks.rs'],[('unbounded recursion, no depth limit','src/parser/expression/mod.rs: ASTExpression::parse')],['parse'])
p('C25','Tokenizing and parsing take time linear in the input',
 'The time and memory to tokenize and parse a text grow linearly with its length.',
 ['inputs'],'texts of any length','No test measures cost.',
 [LX,'src/parser/'],[('single pass over the text and the tokens',LX+': tokenize')],['tokenize','parse'])
