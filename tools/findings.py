F=[]
def fx(c,prop,inp,what,kind=""): F.append(dict(property=prop,status="fixed",kind=kind,input=inp,what=what,commit=c))
def kn(prop,inp,what,kind=""): F.append(dict(property=prop,status="known",kind=kind,input=inp,what=what))
fx("a1b6a2d","C10","SELECT a FROM t `abc","an unclosed quoted name at the end was ignored","reject")
fx("a1b6a2d","C08","SELECT 1; x","a trailing statement of one token was ignored","reject")
fx("7671551","C10","SELECT DISTINCT","SELECT without select items was accepted","reject")
fx("588b3cd","C04","SELECT ON (a) AS b FROM t","a function called ON was read as the ON of DISTINCT ON")
fx("5196079","C07","SELECT a FROM t array join f(b) + 1","array join in lower case was not recognised","fold")
fx("d9fa1a9","C04","SELECT a FROM t WITH TOTALS","WITH TOTALS without GROUP BY was dropped")
fx("92302a2","C04","SELECT a FROM t GROUP BY a HAVING b WINDOW w AS (ORDER BY a)","WINDOW was printed in front of HAVING")
fx("5ef1ba3","C04","SELECT a FROM t FINAL FINAL SAMPLE 0.1","FINAL was printed behind SAMPLE")
fx("cd92238","C01","CREATE USER a HOST ANY","CREATE USER ending in a keyword panicked")
fx("cd92238","C07","CREATE USER a DEFAULT role b","DEFAULT role in lower case was not recognised","fold")
fx("2345c01","C04","SYSTEM STOP MERGES t","SYSTEM STOP could not be read")
fx("2345c01","C04","SYSTEM SYNC REPLICA t","REPLICA was lost")
fx("261b236","C01","ALTER ROLE a SETTINGS b","a role setting without value panicked")
fx("261b236","C07","ALTER ROLE a SETTINGS b = 1 readonly","readonly in lower case was not recognised","fold")
fx("6e7819c","C04","DROP USER a FROM b NO DELAY","the modifier was printed in front of FROM")
fx("35191a1","C04","GRANT SYSTEM SHUTDOWN ON *.* TO a","SYSTEM was printed as SHOW")
fx("35191a1","C04","GRANT NONE ON *.* TO a","NONE could not be read")
fx("e53b3a6","C04","DETACH TABLE t","DETACH was printed as DROP")
fx("c15dcfb","C02","SELECT a FROM t JOIN u USING (b), v","USING (b) lost its parentheses and took the next table")
fx("b00ea9f","C10","SELECT a FROM t GROUP BY a,","a list cut short by the end of input was accepted","reject")
fx("973134e","C04","INSERT INTO t VALUES","VALUES without rows was dropped")
fx("05609ac","C04","INSERT INTO FUNCTION f(a) VALUES (1)","FUNCTION was dropped")
fx("05eee8b","C01","CREATE DICTIONARY d (a Int) PRIMARY KEY a SOURCE(HTTP(user user()))","formatting a dictionary argument user() panicked")
fx("78dd02e","C04","CREATE TABLE t (a Int, CONSTRAINT c CHECK a > 1)","CHECK was dropped")
fx("0e1e411","C10","ALTER TABLE t CLEAR COLUMN a IN","IN without PARTITION was accepted","reject")
fx("fbde0a3","C04","ALTER TABLE t ADD INDEX IF NOT EXISTS i a TYPE minmax GRANULARITY 1","IF NOT EXISTS was printed in front of INDEX")
fx("05c83cd","C04","CREATE TABLE t ENGINE = M() PARTITION BY a AS SELECT 1","the AS of the query was read as an alias")
fx("14ce46e","C04","SELECT ?-1","a subtraction behind a placeholder could not be read")
fx("952a782","C01","SELECT |(|1000000","a megabyte of opening parentheses overflowed the stack","repeat")
fx("db3f90e","C01","CREATE TABLE t (a Enum8('a'","an enum type at the end of input panicked","reject")
fx("68a4958","C04","SELECT a FROM f(`a b`=1)","the quotes of a named table argument were lost")
fx("8733062","C10","SHOW DATABASES NOT","NOT without LIKE was accepted and dropped","reject")
fx("76fd8d9","C04","CREATE TABLE t (a Int) ENGINE = M() ORDER BY a ORDER BY b","a repeated clause was lost","reject")
fx("be3aa85","C04","CREATE TABLE t (a Int) ENGINE = `M x`","the quotes of the engine's name were lost")
fx("344a327","C04","SELECT f(a)(DISTINCT b)","DISTINCT was dropped")
fx("91879ae","C04","CREATE USER a IDENTIFIED WITH","IDENTIFIED WITH nothing was accepted","reject")
fx("27694e4","C04","CREATE MATERIALIZED VIEW v TO t AS SELECT a COMMENT 'c'","COMMENT was read as an alias")
fx("8d469ec","C04","CREATE LIVE VIEW v UUID 'x' AS SELECT a","the UUID of a live view was dropped")
fx("be2dd4a","C04","CREATE TABLE t () ENGINE = M()","an empty column list was dropped")
fx("67b5e58","C03","SELECT 'a\nb' FROM t","line breaks in strings were indented")
fx("62c055a","C11","INSERT INTO FUNCTION f(a) (b) VALUES (1)","the columns were read as arguments")
fx("925c647","C11","SELECT a, b FROM t WHERE c","a callback returning false stopped the whole walk")
fx("a228d0b","C10","CREATE USER a SETTINGS b HOST","the next clause was read as a setting","reject")
fx("d059e5d","C04","CREATE TABLE t ENGINE = M() TTL a DELETE WHERE c GROUP BY b AS SELECT 1","the AS of the query was read as an alias")
fx("aa4fc55","C11","RENAME TABLE a TO b","TargetPair nodes were not reached")
fx("aa4fc55","C12","RENAME TABLE a TO b","TargetPair nodes were not visited")
for q in ("C11","C12","C17"): fx("285494c",q,"SELECT {'a': 1}","the keys of a map literal were copies")
fx("4b0f2a1","C14","SELECT a FROM f(NULL, .5)","NULL and .5 were rejected as table function arguments")
fx("52e7367","C18","GRANT SELECT ON *.* TO a WITH `ADMIN` OPTION","a quoted name was taken for ADMIN","reject")
fx("a130262","C08","SELECT a,;SELECT b","a list may end with a comma only at the end of input")
fx("a130262","C10","CREATE NAMED COLLECTION a AS","a collection without parameters was accepted at the end of input","reject")
fx("a130262","C10","CREATE TABLE t (a Int,,b Int)","two commas were accepted","reject")
fx("5e44364","C04","SELECT (a,)","the comma of a one-element tuple was dropped")
fx("1525dcd","C09","CREATE TABLE a AS b","the schema ended beyond the text")
fx("1525dcd","C09","ALTER TABLE t MODIFY TTL 's' - a","the TTL literal's position was wrong")
fx("1525dcd","C09","SELECT 1 x FROM t AS h","alias positions were wrong")
fx("32edc11","C09","SELECT a FROM t WINDOW w AS (ORDER BY b ROWS UNBOUNDED FOLLOWING)","UNBOUNDED ended somewhere else")
fx("d968f58","C09","\nCREATE TABLE a","the statement ended before it started")
fx("6239bb3","C02","SELECT 1 .5","a member access of a number was printed as another number")
fx("19f5bfb","C10","SELECT (SELECT a FROM t GROUP BY )","GROUP BY, LIMIT BY and PARTITION BY of nothing were accepted","reject")
fx("f50ea91","C02","SELECT a FROM t JOIN u USING (a,) JOIN v ON b","the trailing comma took the next JOIN as a column")
fx("0f58ec4","C02","SELECT + 7 .a","the printed 7.a is no number")
fx("30cfe02","C10","SELECT SELECT a FROM t ADD","a query as operand took, or lost, what follows it","reject")
fx("fbbd852","C14","SELECT . 6","a dot and a number apart were read as one number","reject")
fx("799b6fa","C09"," DROP TABLE t ","the end was that of the space behind the statement")
fx("0475604","C04","SELECT 1 FORMAT a FORMAT b","the second FORMAT was dropped","reject")
fx("e524288","C04","DROP USER a ON CLUSTER b ON CLUSTER c","the second ON CLUSTER was dropped","reject")
fx("047dd18","C04","SELECT a GROUP BY a WITH CUBE WITH CUBE","the second WITH CUBE was dropped","reject")
fx("83ca803","C02","SELECT a FROM t JOIN u USING (LIKE) SEMI LEFT JOIN v USING c","printed without parentheses, the reserved word is no name")
fx("1e9dbe8","C02","SELECT a, EXCEPT SELECT b","EXCEPT behind a select item was taken for a column modifier")
fx("a2e7501","C09","CREATE MATERIALIZED VIEW v ENGINE = M POPULATE ","the end was that of the space behind the statement")
fx("7e343f5","C10","SELECT arrayMap(x +> x, a)","+> was read as the lambda arrow and printed as ->","reject")
fx("a05ec83","C18","SELECT x ? extract : y","cast and extract were no names")
fx("77abd19","C04","SELECT a EXCEPT (SELECT b EXCEPT SELECT c)","the parentheses were dropped, which changes what EXCEPT applies to")
fx("b173014","C02","SELECT a::3 .b","the space between the number and the dot was lost, which makes them no token")
fx("dd03e20","C05","a::Int32[1] ~ (a::Int32)[1]","the subscript was read as one of the type's name")
fx("dd03e20","C05","a::JSON.b.c[1] ~ (((a::JSON).b).c)[1]","the members were read as parts of the type's name")
kn("C09"," SELECT CASE WHEN a THEN 1 END","the end of CASE is 0, and so are ends computed from it")
kn("C09","SHOW TABLES","the end of SHOW is that of the token behind it, or one behind the text")
kn("C09","SELECT a FROM t ORDER BY a WITH FILL","WITH FILL without bounds ends four behind the start of the next token, possibly behind the text")
kn("C09","SELECT a FROM t ORDER BY 2","a literal that starts an ORDER BY item reports the start of ORDER or of the list")
kn("C09","SELECT a FROM t ORDER BY a WITH FILL FROM 1 TO 5","literals of WITH FILL report the start of WITH FILL")
kn("C09","CREATE TABLE t (a Int COMMENT 'x') ENGINE = M()","the string of a column COMMENT reports the start of the keyword")
kn("C09","CREATE TABLE t (a Int CODEC(ZSTD(1))) ENGINE = M()","a codec level reports the start of the parenthesis")
kn("C09","SELECT *","the name * has no width")
kn("C02","SELECT a FROM t LIMIT a, -14","the printed LIMIT -14 OFFSET a reads back as a unary minus")
kn("C04","ALTER TABLE t DROP PARTITION ID 'x'","ID is dropped (a stored snapshot pins it)")
kn("C02","SELECT a, where,","the comma is dropped, and without it the keyword is no column")
kn("C02","CREATE DICTIONARY d (a Int HIERARCHICAL EXPRESSION b = ALTER) PRIMARY KEY a SOURCE(F(a 1)) LIFETIME(1)","the printed order puts a reserved keyword used as name in front of a clause")
kn("C04","ATTACH TABLE t (a Int) ENGINE = M()","ATTACH is printed as CREATE (a stored snapshot pins it)")
kn("C02","SHOW DATABASES FORMAT `it's`","the quoted name of the format is printed as a string without escaping its quote (names are stored as strings here, a stored snapshot pins it)")
kn("C04","SHOW DATABASES FORMAT JSON","the name of the format is printed as a string (a stored snapshot pins it)")
kn("C17","SELECT a FROM t JOIN u USING (b, LIKE)","renaming a reserved keyword at the end of USING drops the parentheses, which are only printed for it")
kn("C04","DESCRIBE TABLE t FORMAT JSON","FORMAT behind other statements than SELECT is dropped")
import json
L=[]
for f in F:
    if not f['kind']: del f['kind']
    f['entry']=(f"fixed: property={f['property']} {f['commit']} {f['what']}" if f['status']=='fixed' else f"KNOWN-FINDING: property={f['property']} {f['what']}")
    L.append(json.dumps(f,ensure_ascii=False))
open('/verif/known_findings.json','w').write('{"findings": [\n'+",\n".join(L)+"\n]}\n")
