package checks

import "strings"

// sqlWords are the words with a meaning of their own in ClickHouse SQL.
var sqlWords = strings.Fields(`
ADD ADMIN AFTER ALIAS ALL ALTER AND ANTI ANY APPEND APPLY ARRAY AS ASC ASCENDING ASOF AST ASYNC ATTACH BETWEEN
BOTH BY CACHE CASE CAST CHECK CLEAR CLUSTER CODEC COLLATE COLLECTION COLUMN COLUMNS COMMENT COMPILED CONFIG
CONSTRAINT CREATE CROSS CUBE CURRENT DATABASE DATABASES DATE DAY DEDUPLICATE DEFAULT DEFINER DELAY DELETE
DEPENDS DESC DESCENDING DESCRIBE DETACH DETACHED DICTIONARIES DICTIONARY DISK DISTINCT DISTRIBUTED DNS DROP
ELSE EMBEDDED EMPTY END ENGINE ESTIMATE EVENTS EVERY EXCEPT EXISTS EXPLAIN EXPRESSION EXTRACT FALSE FETCHES
FILESYSTEM FILL FINAL FIRST FLUSH FOLLOWING FOR FORMAT FREEZE FROM FULL FUNCTION FUNCTIONS GLOBAL GRANT
GRANTEES GRANULARITY GROUP GROUPING HAVING HIERARCHICAL HOST HOUR ID IDENTIFIED IF ILIKE IN INDEX INF
INJECTIVE INNER INSERT INTERPOLATE INTERSECT INTERVAL INTO IP IS IS_OBJECT_ID JOIN JSON KERBEROS KEY KILL LAST
LAYOUT LDAP LEADING LEFT LIFETIME LIKE LIMIT LIVE LOCAL LOGS MARK MATERIALIZE MATERIALIZED MAX MERGES MIN
MINUTE MODIFY MONTH MOVE MOVES MUTATION NAME NAMED NAN_SQL NO NONE NOT NULL NULLS OFFSET ON OPTIMIZE OPTION OR
ORDER OUTER OUTFILE OVER OVERLAY OVERRIDABLE PARTITION PIPELINE PLACING POLICY POPULATE PRECEDING PREWHERE
PRIMARY PROJECTION QUARTER QUERY QUEUES QUOTA RANDOMIZE RANGE REALM RECOMPRESS REFRESH REGEXP RELOAD REMOVE
RENAME REPLACE REPLICA REPLICATED REPLICATION RESET RESTART RIGHT ROLE ROLLUP ROW ROWS SAMPLE SECOND SECURITY
SELECT SEMI SENDS SERVER SET SETS SETTING SETTINGS SHOW SHUTDOWN SKIP SOURCE SQL STALENESS START STEP STOP
SUBSTRING SYNC SYNTAX SYSTEM TABLE TABLES TEMPORARY TEST THEN TIES TIMEOUT TIMESTAMP TO TOP TOTALS TRAILING
TRIM TRUE TRUNCATE TTL TYPE UNBOUNDED UNCOMPRESSED UNION UNTIL UPDATE USE USER USING UUID VALID VALUES VIEW
VOLUME WATCH WEEK WHEN WHERE WINDOW WITH YEAR
`)
