#!/usr/bin/env python3
"""Single source of properties.jsonl (run from /verif: python3 tools/gen_properties.py)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["parse_dbml_unchecked","parse_dbml"]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
G="src/dbml.pest"; PM="src/parser/mod.rs"; AM="src/analyzer/mod.rs"; IX="src/analyzer/indexer.rs"; HP="src/analyzer/helper.rs"; ER="src/analyzer/err.rs"
GOLD="The golden tests parse about 20 fixed documents and compare the whole AST; "
VAL="The only tests of the checked entry point are one accepted document and a directory of documents that merely must be rejected (most of them for having no Project block or for a syntax error), so "

p("C01","Parsing is total: every input gets a result, never a panic or a hang",
"For every input text, both the unchecked and the checked parser return, with either a document or an error; neither panics, aborts, overflows the stack nor loops forever. When an error is returned, its location lies inside the input text and on character boundaries, so that it can be displayed.",
["inputs"],"every string, including non-ASCII text, truncated and mutated documents, extreme numbers, and well-formed documents whose settings combine unusually (a default on a type without arguments, a setting key without a value, ...)",
"The tests parse fixed files; a panic needs a particular combination (for example a string default on a length-less character type) that no file contains.",
[PM,AM,IX,ER],[("error-returning match arms; unreachable! arms that the grammar must make unreachable",PM),("indexing and unwrap on spans and type arguments",AM),("throw_err builds a Span from a stored range",ER)])
p("C02","The accepted language is exactly the documented DBML grammar",
"The unchecked parser accepts an input if and only if the whole of it is a sequence of well-formed top-level blocks (Project, Table, Enum, Ref, TableGroup, Note, with their documented inner syntax), separated by whitespace and comments. Nothing is skipped: a missing, extra, misplaced or misspelt token anywhere makes it an error, keywords of blocks are case-insensitive, and numbers, referential actions and index types that do not denote a legal value are errors too.",
["inputs"],"every token sequence, in every syntactic context, and every character in every lexical position",
GOLD+"a grammar change that accepts more, or rejects something no file uses, passes them.",
[G,PM],[("the PEG rules",G),("parse-time rejection of illegal numbers, actions and index types",PM)],observe=["parse_dbml_unchecked"])
p("C03","The AST is a faithful, ordered image of what was declared",
"For every accepted document the AST contains exactly the declared blocks, columns, enum values, index definitions, group items, project properties, relationships and notes, each once, in source order, with their names, schema qualifiers, aliases, relationship kinds and endpoints, column types, type arguments and array dimensions as written. Where a table, group or project repeats its note, or a table its indexes block, the last one is kept; nothing else is dropped, merged, reordered or invented.",
["inputs"],"every accepted document: any number and order of blocks and members, every optional part present or absent, in any combination",
GOLD+"any combination of optional parts, orders and counts that is not in a file is untested.",
[PM,"src/ast/schema.rs","src/ast/table.rs","src/ast/refs.rs"],[("one fold per grammar rule that pushes into the AST node",PM)],observe=["parse_dbml_unchecked"])
p("C04","Settings are interpreted by key, and every attribute is also kept verbatim",
"In every settings list each attribute appears once, in order, with its key and value, and the typed fields agree with the keys: for columns pk / primary key, unique, null / not null, increment, default, note and inline refs; for index definitions pk, unique, type (btree, gin, gist, hash), name and note; for enum values note; for relationships delete and update with the five referential actions; for projects database_type. A typed field is set if and only if its key is present in that list, to the value given with that key (the last one if repeated), and no key affects another field or another element.",
["inputs"],"every list of settings in every kind of settings block, in every order and combination, with every kind of value",
GOLD+"they contain few settings combinations and no key on the wrong kind of block.",
[PM,"src/ast/indexes.rs","src/ast/refs.rs","src/ast/project.rs"],[("match on attribute key in parse_col_settings, parse_enum_value, parse_indexes_settings, parse_rel_settings, parse_project_decl",PM)],observe=["parse_dbml_unchecked"])
p("C05","Literals and identifiers denote exactly what is written",
"Every literal is returned with the kind its syntax implies and with its exact value: integers and decimals by numeric value (an integer that does not fit is an error, never wrapped or truncated), booleans and null, hex colours, backquoted expressions, bare words. The value of a quoted string or quoted identifier is the text between its quotes with only leading whitespace removed, whatever that text contains, including comment markers, other quote characters, line breaks and non-ASCII text. The raw form of an identifier or literal is the source text itself.",
["inputs"],"every literal of every kind, in every position of the grammar that admits one, of any length and content",
GOLD+"few literal contents occur in them and none contains a comment marker, an extreme number or a bare word that begins like a boolean.",
[G,PM,"src/ast/unit.rs"],[("quoted string, number, boolean, hex and bare word rules",G),("parse_value, parse_string_value, parse_ident, parse_attribute",PM)],observe=["parse_dbml_unchecked"])
p("C06","Source spans locate each node exactly",
"Every span in the AST is a valid range of the input on character boundaries; it starts at the node's first character and ends at its last (at most trailing whitespace and comments may be included, and only where an optional tail of the node was omitted), so the text under the span of an identifier, literal or column type equals its raw form. The root span covers the whole input, the spans of children lie inside their parent's span, and siblings are disjoint and in source order.",
["inputs"],"every accepted document under every layout (whitespace, comments, line endings, multi-byte characters before and inside nodes)",
"The golden files pin the spans of fixed layouts only.",
[PM,"src/parser/helper.rs"],[("s2r(pair.as_span()) at every node",PM)],observe=["parse_dbml_unchecked"])
p("C07","Layout and comments carry no meaning",
"Inserting, removing or replacing whitespace, line breaks of any style, line comments or block comments between two tokens of a document never changes whether it is accepted nor the AST apart from spans and the raw text of column types, as long as the tokens stay separated as the grammar requires (a block keyword and 'as' are followed by whitespace; the parts of a column type adjoin). Comments are complete: whatever is inside one is ignored, and an unterminated block comment is an error.",
["inputs"],"every token boundary of every document times every kind of separator",
GOLD+"comments and unusual whitespace occur at a handful of token boundaries.",
[G],[("implicit WHITESPACE and COMMENT rules; atomic and compound-atomic markers",G)],observe=["parse_dbml_unchecked"])
p("C08","Parsing is compositional over top-level blocks",
"If two texts are each accepted, their concatenation, separated by a line break, is accepted and yields the blocks of the first followed by the blocks of the second, with all spans of the second shifted by its offset. An accepted text followed by blocks of which one is malformed is rejected. The per-kind accessors of the document (projects, tables, table groups, refs, enums) return exactly the blocks of that kind, in source order.",
["inputs"],"all sequences of top-level blocks, of every kind, well-formed or not",
"The golden files are single fixed sequences of blocks; the accessors are never called by a test except through one accepted document.",
[G,PM,"src/ast/schema.rs"],[("schema rule",G),("parse_schema fold",PM),("SchemaBlock accessors","src/ast/schema.rs")])
p("C09","Results depend only on the input; checking only adds rejections",
"Both entry points are pure: the result for a text is the same on every call, whatever was parsed before in the same process. When the checked parser accepts, it returns exactly the document the unchecked parser returns; when the unchecked parser rejects, the checked parser returns the very same error; and the returned document always carries the input it was given.",
["histories","inputs"],"every sequence of calls to both entry points, with accepted, syntactically wrong and semantically wrong inputs in any order",
"Each test calls one entry point on each input once.",
["src/lib.rs",PM,AM],[("parse_dbml = parse then analyze","src/lib.rs"),("all parser and analyzer state is local",AM)])
p("C10","Exactly one project, and every name is unique within its scope",
"The checked parser rejects a document unless it has exactly one Project block, no two tables of the same schema share a name, no two enums of the same schema share a name, no alias is declared twice, no two columns of a table, values of an enum or table groups share a name, and no settings list or project repeats a key; an omitted schema means the schema 'public', and names compare case-sensitively by their unquoted text. Same names in different scopes (a table and an enum, columns of different tables, same table name in different schemas) are never a reason for rejection.",
["inputs"],"every pair of declarations, wherever they stand in the document and however their names are written",
VAL+"no duplicate rule is tested in isolation.",
[AM,IX,HP],[("project count and check_prop_duplicate_keys",AM),("index_table, index_enums, index_table_groups",IX),("check_attr_duplicate_keys",HP)],observe=["parse_dbml"])
p("C11","Primary keys are single, non-null and scalar; nullability is consistent",
"The checked parser accepts a table only if it declares at most one primary key, counting column settings and index definitions together, no column set as primary key is also set null or has an array type, and no column is set both null and not null. A table that satisfies this is not rejected for its keys or nullability.",
["inputs"],"every assignment of key and nullability settings to the columns and index definitions of a table",
VAL+"none of these rules is tested in isolation.",
[AM],[("pk_list and nullable checks in the column loop; pk_list check in the index loop",AM)],observe=["parse_dbml"])
p("C12","Index definitions are well-formed and free of duplicates",
"The checked parser accepts a table's index definitions only if each names at least one column or expression, each named column exists in that table, each sets at most one of pk, unique and type, no two unique constraints (from index definitions or an index definition and a column's unique setting) cover the same set of columns and expressions, and no two definitions list the same columns and expressions in the same order with the same type, or both without any settings. Definitions that differ in columns, expressions or type are never duplicates, in whichever order they are declared.",
["inputs"],"every sequence of index definitions over the columns and expressions of a table, with every combination of settings",
VAL+"no index rule is tested in isolation, and expression indexes never reach the analyzer.",
[AM],[("unique_list and indexed_list in the index loop",AM)],observe=["parse_dbml"])
p("C13","Column types, type arguments and default values fit each other",
"The checked parser accepts arguments on a built-in column type only in the number that type takes (one for char, varchar, bit, varbit and the time and timestamp types, two for decimal, none for any other, always optional, every built-in spelling included) and only as integers. It accepts a literal default only if it fits: a string has exactly the declared number of characters for char and bit and at most that number for varchar and varbit, an integer is within the range of a smallint, integer or bigint column, a boolean is on a boolean column, and null is on a column explicitly set null; every other default is accepted.",
["inputs"],"every built-in type name times every argument list times every default value, at and around each limit",
VAL+"no type is tested with wrong arguments, and no default at a limit.",
[AM,"src/ast/table.rs"],[("ColumnTypeName::from_str","src/ast/table.rs"),("argument and default validation in the column type pass",AM)],observe=["parse_dbml"])
p("C14","Defaults of enum columns name a value of the right enum",
"A column whose type is not built in is an enum column; if it has a default, the checked parser accepts the document only if the (schema-qualified, or else public) enum is declared anywhere in the document and, unless the default is null or an expression, the default is one of that enum's values. Declared enums and values are always found, however names are quoted and in whichever order enum and table are declared.",
["inputs"],"every enum column type spelling times every default, over every set of declared enums in one or more schemas",
VAL+"no enum lookup is tested to fail, and only one to succeed.",
[AM,IX],[("enum branch of the column type pass",AM),("lookup_enum_values",IX)],observe=["parse_dbml"])
p("C15","Relationship endpoints must resolve to declared columns",
"The checked parser accepts a relationship, written inline or as a Ref, only if each endpoint names a declared table, by name, by schema-qualified name or by alias, and declared columns of that table. An omitted schema and the schema 'public' are the same, an alias applies only to unqualified names, an inline relationship's left endpoint is the column it is written on, and an endpoint that resolves under these rules is never reported as missing.",
["inputs"],"every spelling of every endpoint over every set of declared tables, schemas and aliases, including names that are alike",
VAL+"the single accepted document has only unqualified endpoints.",
[IX,AM],[("resolve_ref_alias, lookup_table_fields, find_ref_table, from_inline",IX)],observe=["parse_dbml"])
p("C16","Related columns agree in number and type, and the required side is a key",
"The checked parser accepts a resolved relationship only if both sides have the same number of columns, corresponding columns have the same type (synonymous type spellings being equal), arguments and array dimensions, and the required sides are a primary key or unique: the 'one' side of '<' and '>', at least one side of '-', both sides of '<>'. A single column is a key by its own settings or by a single-column pk or unique index definition; several columns are a key only by one pk or unique index definition over exactly those columns in any order.",
["inputs"],"every relationship kind, notation, arity, column type pair and key declaration on either side",
VAL+"no rejection by this rule is tested at all.",
[IX],[("validate_ref_type",IX)],observe=["parse_dbml"])
p("C17","No column set plays the foreign key in two relationships",
"The checked parser rejects a document in which two relationships have the same table and column set on their 'many' side, or in which two '-' (or two '<>') relationships connect the same two endpoints, in either direction; column order, spelling of the endpoints (schema, alias, quoting) and notation (inline, Ref, '<' or '>') do not matter. Relationships that do not conflict in this sense are accepted together, in any number.",
["inputs"],"every pair and triple of relationships over the columns of a few tables, in every notation and order",
VAL+"no conflict is tested.",
[IX,AM],[("occupy_same_column",IX),("conflict count loop",AM)],observe=["parse_dbml"])
p("C18","Table groups contain only declared tables, each once",
"The checked parser accepts a table group only if each item names a declared table, by alias, by name in the public schema or by schema-qualified name, and no two items of the same group denote the same table, however they are spelled. A table may be in several groups, groups may be empty, and a group that satisfies this is accepted wherever it stands.",
["inputs"],"every list of items in every spelling over every set of declared tables, schemas and aliases",
VAL+"table groups are only tested in one accepted document.",
[IX],[("index_table_groups",IX)],observe=["parse_dbml"])
p("C19","A rejection names a rule that is broken and points at what breaks it",
"When the checked parser rejects a syntactically valid document, its message names a rule that the document really violates, with the names, types and values concerned, and its location is the source range of an element that violates it (for duplicates, the later one; for endpoints, the unresolved part; for project rules, the whole document). A document with a single violation is rejected with exactly that message and location.",
["inputs"],"every kind of violation, alone and in pairs, at every position in a document",
"The tests look only at whether an error is returned, never at its message or location.",
[AM,IX,ER,HP],[("throw_err with the offending span",ER),("message texts",ER)],observe=["parse_dbml"])
p("C20","Equivalent spellings get the same verdict",
"The verdict of the checked parser does not change when a relationship is rewritten between inline, short and block notation or mirrored ('<' to '>' with its sides exchanged, or '-' and '<>' with sides exchanged), when an identifier is quoted or unquoted, when a table is referred to by alias, by name or by its explicit public schema, when a built-in type is replaced by a synonym everywhere, or when a single-column endpoint is put in parentheses.",
["inputs"],"every document with relationships, groups and enum columns, times every such rewriting of any subset of its parts",
VAL+"spellings are never varied.",
[IX,AM,PM],[("normalisation of inline and block relationships, aliases and default schema",IX)],observe=["parse_dbml"])
p("C21","Verdicts do not depend on declaration order or on unrelated content",
"Reordering the top-level blocks of a document, the columns or index definitions of a table, the values of an enum, the items of a group or the settings in a list (keys being distinct) never changes whether the checked parser accepts it. Adding an unrelated valid table, enum, group, note or relationship between unrelated tables never changes it either.",
["inputs"],"all permutations of the parts of a document, and all additions of independent parts at every position",
VAL+"only one order of anything is tested.",
[AM,IX],[("index everything first, validate afterwards",AM)],observe=["parse_dbml"])
p("C22","The relationship index answers queries for every table completely",
"For every document the analysis accepts, the relationship query for a table returns every relationship (inline or Ref) of the document that has that table as its left endpoint only, right endpoint only, or both, each exactly once and in the corresponding category, with its kind, columns and settings, however the endpoint was spelled, and no other relationship. The index contains a table, enum, value, column or alias if and only if the document declares it.",
["inputs"],"every accepted document and every table in it",
"No test calls the query or the index at all.",
["src/utils/mod.rs",IX,AM],[("get_table_refs","src/utils/mod.rs"),("Indexer lookups, IndexedRef::from_inline and From<RefBlock>",IX)],
observe=["get_table_refs","analyze"],hook="cfg(dbml_verif): the query takes an analysis result that no public function returns; the hook re-exports the analysis entry point")
p("C23","Names of types, actions, relations and values convert both ways",
"Every documented spelling of a column type, relation symbol, index type, referential action, boolean or null value, and database type converts to its own variant, synonyms to the same one, and every other string is refused (or, for database types, kept as unknown with its text). Converting a referential action, boolean or null back to text yields its canonical spelling, and parsing that gives back the same one; other values are written as their text, and numbers in plain decimal notation that denotes exactly the same number.",
["inputs"],"every string, in particular every documented spelling and every string close to one",
"The golden tests print the few variants that occur; column type names are never converted in them.",
["src/ast/table.rs","src/ast/refs.rs","src/ast/indexes.rs","src/ast/unit.rs","src/ast/project.rs"],[("FromStr and ToString implementations","src/ast")],observe=["ast::*::from_str","ast::*::to_string"])
p("C24","Parsing and checking cost grows polynomially with the input",
"The time and memory used by either entry point grow at most quadratically (up to logarithmic factors) with the length of the input, for every family of inputs, accepted or rejected, and nothing a call allocated stays allocated once its result is dropped.",
["inputs"],"every unbounded family of inputs",
"The tests parse small files.",
[G,AM,IX],[("PEG without nested repetition over the same input; analysis loops over pairs of relationships",G)])
open("properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
