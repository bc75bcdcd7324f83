package main

var worlds = map[string]World{
	"history": {genH, runH},
	"batch":   {genU, runU},
	"network": {genN, runN},
	"streams": {genS, runS},
	"kzg":     {genK, runK},
	"tasks":   {genC, runC},
	"cost":    {genL, runL},
	"version": {genV, runV},
	"demo":    {nil, runD},
}

// what one run of each world is
var rules = map[string]string{
	"history": "history: updates, deletions, key commitments, bulk loads, commits, persistence, discards, clones, crashes and reopenings with other options of one buffered trie over a simulated disk with read and write errors, compared node by node with a reference model.",
	"batch":   "batch: several tenants with batched updaters in partitions of one simulated write-ahead-logged database; any operation can fail or be the last one before a crash, unflushed entries get lost; what is found afterwards is compared with the history of acknowledged commits.",
	"network": "network: provers with growing state, light clients and byzantine peers exchange serialized proofs over a network which drops, duplicates, delays, reorders, truncates and corrupts; provers crash, their records get damaged; every accepted proof is judged against the reference state.",
	"streams": "streams: key/value streams, dump files, restores and decoders over readers, writers and files which return short counts, end early, tear or fail.",
	"cost":    "cost: a large state on a slow disk; reads, writes and statements of each operation are compared with the paths of the keys it is about, in histories with crashes, discards, failing reads, cold and full buffers.",
	"version": "version: a database which changes hands between the library and another version of it (written from the description of the formats), with crashes and read errors; both read what the other wrote, exchange proofs and snapshots.",
	"kzg":     "kzg: provers and byzantine peers with KZG proofs, and trusted setups written to and read from faulty media.",
	"tasks":   "tasks: readers, tries, clones and batched updaters as tasks of one process over one database and one model object; a seeded scheduler preempts them at any statement of the library.",
}

var realParts = []string{
	"trie (trie, nodes, node stores, proofs, key packing, streams, dump files, serialization helpers), with a tick before every statement",
	"models/trie_blake2b and trie_blake2b_verify", "models/trie_kzg_bn256 with go.dedis.ch/kyber bn256, the command kzg_setup", "hive_adaptor",
	"golang.org/x/crypto/blake2b", "Go runtime and standard library (map iteration order, locks and file transfers behind hooks)",
}
var stubParts = []string{
	"key/value database (simulated disk with a write-ahead log; hive.go mapdb in 1 of 8 runs of the batch world)",
	"network, clients and peers of the network and kzg worlds", "clock (logical)", "terminal of kzg_setup", "randomness (seeded)",
	"file system: real files of a scratch directory with failing, short and torn transfers",
}

func pd(quick, thorough int, ws ...any) *propDef {
	d := &propDef{quick: quick, thorough: thorough, real: realParts, stub: stubParts}
	for i := 0; i < len(ws); i += 2 {
		d.worlds = append(d.worlds, ws[i].(string))
		d.weights = append(d.weights, ws[i+1].(int))
		d.rule += rules[ws[i].(string)] + " "
	}
	return d
}

var props = map[string]*propDef{
	"C01": pd(14000, 1500000, "history", 6, "batch", 1),
	"C02": pd(14000, 1500000, "history", 4, "batch", 1),
	"C03": pd(60000, 8000000, "batch", 1),
	"C04": pd(16000, 1500000, "history", 2, "batch", 1),
	"C05": pd(14000, 1800000, "network", 2, "history", 1),
	"C06": pd(14000, 1800000, "network", 1),
	"C07": pd(40000, 5000000, "network", 1, "streams", 4),
	"C08": pd(100000, 20000000, "streams", 1),
	"C09": pd(70000, 9000000, "streams", 1),
	"C10": pd(90000, 15000000, "streams", 1),
	"C11": pd(14000, 1800000, "network", 1),
	"C12": pd(14000, 1500000, "history", 3, "tasks", 2),
	"C13": pd(14000, 1500000, "history", 1),
	"C14": pd(24000, 4000000, "tasks", 1),
	"C15": pd(14000, 1500000, "history", 1),
	"C16": pd(14000, 1500000, "history", 3, "batch", 1),
	"C18": pd(50000, 7000000, "batch", 5, "tasks", 1),
	"C19": pd(500, 40000, "kzg", 4, "history", 1),
	"C32": pd(400, 60000, "cost", 1),
	"C33": pd(90000, 6000000, "version", 1),
	"C20": pd(1500, 150000, "kzg", 1),
}

func clearMoreHooks() {}
