import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F=[("C01","cee96ec","Insert never returned when a split landed on an existing boundary key"),
("C01","544f496","Delete merged away a partial boundary key the deleted key does not match, losing keys"),
("C08","90bdc9f","bulk load read past the last key when it is itself a boundary key (number of keys = 1 mod 1024)"),
("C08","e25b612","BulkLoadStreamingFinish dropped the last key when it is a boundary key"),
("C06","58e174f","a deserialized filter kept pointers into the caller's image buffer and freed them"),
("C06","2d2c952","Size() of an integer filter with cut-down boundary keys was less than what Serialize writes"),
("C06","a943636","deserialization ignored the load factor stored in the image, so the filters diverged"),
("C05","e730734","ShrinkInfixSize erased the last eight runend bits of byte-aligned stores"),
("C12","ee978cf","slot accesses read and wrote back up to seven bytes past the end of an infix store"),
("C05","219cecc","ShrinkInfixSize corrupted every store not of the default size grade"),
("C01","2d86a45","Delete could push the first run of a store past its canonical slot, losing keys"),
("C01","6946fdc","a split could expand a cluster of short infixes until the stack overflowed"),
("C01","9d29fa6","merging two stores on Delete left infixes out of order, losing keys"),
("C01","d31888b","keys equal to a cut-down boundary key up to zero padding got lost"),
("C10","8532f3a","leaves of the string tree were not 64-byte aligned, so its trie kept pointers into freed leaves and lookups spun forever"),
("C11","bea0c2c","merging two leaves of the integer tree counted the merged keys as sorted twice, and a later sort of a negative count crashed"),
("C11","0b9b562","lookups in the integer tree missed keys not yet sorted into their leaf, and puts stored them twice"),
("C12","7d187df","BulkLoadStreamingFinish leaked the buffer of the outermost boundary keys"),
("C01","1e6b3ef","merging two stores of the integer tree on Delete used keys and stores its own tree deletion had already moved (crash)"),
("C12","42911b0","qsbr_wait followed a null pointer while another thread was registering"),
("C11","e8b1e53","wh_int_get called a null function pointer"),
("C16","9d6be18","peeking with an integer tree iterator past the last key read outside of the leaf"),
("C11","ea53640","integer tree lookups searched a leaf while an iterator was sorting it, and missed keys"),
("C12","d47c9b9","destroying a filter leaked its reference to the tree"),
("C10","98b1d66","making room in a full hash table of a tree moved two prefixes in circles: endless recursion (crash), or a lost prefix; both maps"),
("C01","9890dc3","a split next to a boundary key far closer than the other one shifted infixes out of their word: keys lost, or a crash"),
("C01","abd35be","merging two stores of infixes of 22 or more bits on Delete lost the first bit of infixes, and their keys"),
("C19","adb5952","range deletes of the unsafe calls whose range is empty ran off the end of the leaf list (crash)"),
("C19","ee2d24e","an unsafe put that could not get memory released a lock it had never taken, and the next safe put waited forever"),
("C20","0681bc0","process_getaffinity_list wrote one processor into a list of no entries"),
("C20","0328df2","fork-join gave the caller random processors when its own could not be read")]
json.dump({"findings":[{"status":"fixed","property":p,"commit":c,"what":w,"line":f"fixed: property={p} {c} {w}"} for p,c,w in F]},open(os.path.join(V,"known_findings.json"),"w"),indent=1)
