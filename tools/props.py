"""The property list: writes properties.jsonl and MANIFEST.json.   python3-vt tools/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, note=note, observe=observe or [], state=state or [], na=na))


SAMPLED = "Sampled, not exhaustive: small inputs by construction (the oracle is brute force), every case in a fork of a driver built with ASan and UBSan."

prop("C01", "The reported barcode is the persistent homology of the point cloud",
     "For every finite point cloud, distance threshold and maximum dimension D, the fast pipeline reports exactly the persistence intervals of the "
     "Vietoris-Rips filtration over GF(2) in dimensions 0 to D-1, up to intervals of length zero, for each complex type. "
     "A feature that is still alive at the threshold is reported as ending at the threshold.",
     ["inputs", "configurations"], "every point cloud, threshold, maximum dimension and complex type",
     "The tests run one fixed cloud and look only for crashes; nothing compares a barcode with a reference, and the value depends on the whole input.",
     ["Pipes/fastPersistence.cpp", "Pipes/ripsPipe.cpp", "Pipes/neighGraphPipe.cpp", "Pipes/distMatrixPipe.cpp", "Complex/simplexTree.cpp",
      "Complex/simplexArrayList.cpp", "Complex/indSimplexTree.cpp"],
     [("minimum spanning tree for dimension 0", "Pipes/fastPersistence.cpp runPipe"),
      ("cohomology reduction with cleared pivots per dimension", "Pipes/fastPersistence.cpp runPipe")],
     "Compared with an independent column reduction of the enumerated flag complex. " + SAMPLED, ["bettiOutput of the packet"])

prop("C02", "The complex is the Vietoris-Rips filtration of the inserted points",
     "After any sequence of insertions, with reads at any moment in between, and after expansion, each complex type holds exactly the simplices of the "
     "Vietoris-Rips complex of the points so far up to the maximum dimension, each once, weighted by its diameter and listed in order of weight. "
     "The reported vertex and simplex counts agree with that list.",
     ["inputs", "histories"], "every point cloud, threshold, dimension, complex type and interleaving of insertions with reads",
     "The tests insert a few hard-coded points and check emptiness or a count; they never compare the simplices, nor read between insertions.",
     ["Complex/simplexTree.cpp", "Complex/simplexArrayList.cpp", "Complex/indSimplexTree.cpp", "Complex/simplexBase.cpp", "Pipes/neighGraphPipe.cpp", "Pipes/ripsPipe.cpp"],
     [("recursive cofacet insertion", "Complex/simplexTree.cpp recurseInsert"), ("pairwise set expansion", "Complex/simplexArrayList.cpp expandDimensions"),
      ("indexed trie", "Complex/indSimplexTree.cpp recurseInsert")],
     "Compared with an enumerated flag complex. " + SAMPLED, ["edges, indexed edges and counts of a complex"])

prop("C03", "Barcodes obey the exact laws of the Rips construction",
     "Reordering the points, moving them rigidly, padding them with zero coordinates, scaling, repeating a point, copying the cloud far away, lowering the "
     "threshold, raising the maximum dimension or switching the complex type changes the reported barcode exactly as the mathematics prescribes.",
     ["inputs", "configurations"], "every point cloud and every such transformation of it",
     "Needs pairs of runs on related inputs; the tests run single inputs, and clouds this large have no precomputed answer.",
     ["Pipes/fastPersistence.cpp", "Pipes/distMatrixPipe.cpp", "Complex/simplexTree.cpp", "Complex/simplexArrayList.cpp", "Complex/indSimplexTree.cpp"],
     [("whole pipeline", "Pipes/fastPersistence.cpp runPipe")],
     "Metamorphic relations on clouds of up to 60 points, larger than the reference of C01 can take. " + SAMPLED, ["bettiOutput of two runs"])

prop("C04", "The distance stage yields exact distances and the filtration weights",
     "For every point cloud the distance stage stores the Euclidean distance of every pair once, whatever the number of coordinates, and lists the filtration "
     "weights as the distinct distances below the threshold together with zero and the threshold, in decreasing order. The points themselves are not altered.",
     ["inputs"], "every point cloud, coordinate count and threshold, including thresholds equal to a distance",
     "The tests only check that the stage runs.",
     ["Pipes/distMatrixPipe.cpp", "Utils/utils.cpp", "Pipes/pipePacket.cpp"],
     [("pairwise distances and weight set", "Pipes/distMatrixPipe.cpp runPipe")],
     "Recomputed entry by entry. " + SAMPLED, ["distance matrix and weights of the packet"])

prop("C06", "Every feature in the feature table names genuine points of that feature",
     "The feature table holds one entry per reported interval, with the same dimension, birth and death. Each entry's boundary is a duplicate-free set of point "
     "indices: a merge names points of an edge of that length, and a cycle names the points of simplices that are present at its birth, one of which appears exactly then.",
     ["inputs", "configurations"], "every point cloud, threshold, dimension and complex type",
     "No test looks at the table's contents; which simplices a boundary holds depends on the whole reduction history.",
     ["Pipes/fastPersistence.cpp", "Complex/simplexBase.hpp", "Utils/utils.hpp"],
     [("boundary extraction when a pivot is found", "Pipes/fastPersistence.cpp runPipe")],
     "Table compared with the printed barcode and with the point distances. " + SAMPLED, ["bettiTable of the packet"])


prop("C05", "A job's result does not depend on what ran before it",
     "A complex that is cleared and refilled, or a pipeline stage that already served other jobs, gives exactly the results of a fresh one, for every "
     "history of jobs. Copying a packet or working on several in turn does not mix their results.",
     ["histories"], "every sequence of jobs on shared complexes and stages",
     "Each test case uses fresh objects once; stale state shows only after a particular earlier job.",
     ["Complex/simplexTree.cpp", "Complex/simplexArrayList.cpp", "Pipes/fastPersistence.cpp", "Pipes/persistencePairs.cpp", "Pipes/boundaryPipe.cpp"],
     [("clear of a complex", "Complex/simplexTree.cpp clear"), ("per-object tables", "Pipes/persistencePairs.cpp runPipe")],
     "Differential: reused object against a fresh one. " + SAMPLED, ["edges and counts, packet after each job"])

prop("C31", "Evaluating a stream point records the exact spread of its distances",
     "Evaluating a point against a window admits it and appends exactly one line to the complex's statistics: mean and standard deviation of its distances to the whole window, and "
     "to the 20 nearest points (all of them if there are fewer).",
     ["histories"], "every history of points and non-empty windows, on every complex",
     "The tests call it once, on a window too small for it, and ignore the result.",
     ["Complex/simplexBase.cpp"], [("evaluation", "Complex/simplexBase.cpp streamEvaluator")],
     "Recomputed directly. " + SAMPLED, ["statistics text"])

prop("C21", "Boundary matrices and their reductions have the right rank and pivots",
     "Reducing any binary matrix reports its GF(2) rank, a nullity that complements it, and a row-equivalent reduced matrix; the column reduction used for "
     "pairing names the correct pivot of each column. Boundary matrices built from a complex have exactly the face relation as entries, "
     "and selecting the simplices of a size up to a threshold returns exactly those, in order.",
     ["inputs"], "every binary matrix and every complex",
     "The tests run the reduction only on degenerate input and do not look at the result.",
     ["Pipes/boundaryPipe.cpp", "Pipes/persistencePairs.cpp"],
     [("row reduction", "Pipes/boundaryPipe.cpp reduceBoundaryMatrix"), ("pivot search", "Pipes/persistencePairs.cpp getRankNull")],
     "Compared with independent elimination over GF(2). " + SAMPLED, ["returned rank, nullity, rows and pivots"])

prop("C25", "The boundary-matrix pipeline reports the same persistent homology",
     "For every finite point cloud, threshold and maximum dimension D, the boundary-matrix persistence pipeline reports exactly the GF(2) persistence intervals "
     "of the Vietoris-Rips filtration below dimension D, up to intervals of length zero, under a header line, on the tree and on the list complex.",
     ["inputs", "configurations"], "every point cloud, threshold, maximum dimension and of the two complex types",
     "The tests look only for crashes on one cloud; no test compares a barcode with a reference.",
     ["Pipes/persistencePairs.cpp", "Complex/simplexTree.cpp", "Complex/simplexArrayList.cpp"],
     [("column pairing", "Pipes/persistencePairs.cpp runPipe")],
     "Compared with an independent column reduction of the enumerated flag complex. " + SAMPLED, ["bettiOutput of the packet"])

prop("C26", "Projection search finds the enclosing facilities and the nearer of the two",
     "In the streaming k-means helpers, dot products are exact, searching a list ordered by projection returns a position whose projections enclose the target (the last one above all, -1 at or below the "
     "first), and the approximate nearest facility of a point, or of a facility itself, beyond the first projection is the nearer of the enclosing two, or the last. Random numbers stay in their range.",
     ["inputs"], "every facility list, direction and position in the stream",
     "The tests run the unfinished preprocessor once without looking at the result.",
     ["Preprocessing/streamingKmeans.cpp"], [("projection search", "Preprocessing/streamingKmeans.cpp binarySearch, approxNearestNeighbor, approxHat")],
     "Compared with a linear scan of the ordered projections. " + SAMPLED, ["returned positions, facilities and numbers"])

prop("C27", "Queries on a complex answer from its contents",
     "Asking the list complex whether a simplex is present is answered yes exactly when it is in the complex, for the empty set, unknown points and sets of any size. "
     "Asking a complex for the simplices of one dimension returns those of that dimension and nothing else, also beyond the top dimension. "
     "The indexed tree answers the weight of a simplex with its diameter, 10000 if it is absent, and notes each simplex's position in its sorted level.",
     ["inputs", "histories"], "every complex and every query, before and after expansion",
     "The tests query a handful of present simplices of one fixed complex.",
     ["Complex/simplexArrayList.cpp", "Complex/simplexTree.cpp", "Complex/indSimplexTree.cpp"],
     [("membership and level queries", "Complex/simplexArrayList.cpp find, getDimEdges"), ("indexed weights and positions", "Complex/indSimplexTree.cpp getWeight, sortAndBuildGraph")],
     "Compared with an enumerated flag complex. " + SAMPLED, ["find, getDimEdges, getWeight and getIndexEdges"])

prop("C07", "Files are written in the documented formats and read back unchanged",
     "Every writer puts exactly its header and the given rows or text into the file it names, replacing what was there, with one line per row and six decimals. "
     "Point data written as CSV or MAT and read again is the same up to that rounding, including empty data.",
     ["inputs"], "every matrix, text, header and file name, over an existing file or none",
     "The tests round-trip two fixed 6x3 arrays.",
     ["Utils/writeOutput.cpp", "Utils/readInput.cpp"], [("CSV, MAT, barcode and statistics writers", "Utils/writeOutput.cpp")],
     "Byte-exact format model and round trip. " + SAMPLED, ["written files"])

prop("C08", "Input files yield exactly the rows of numbers they hold",
     "For every CSV or MAT text, reading yields every row in order and every number at full precision, whatever the notation of the numbers, the blanks around them, "
     "blank lines, the line ends, a comma at the end of a line or a missing final newline. A missing or empty file yields no rows.",
     ["inputs"], "every well-formed CSV and MAT text",
     "The tests read a missing file and two files the writer made.",
     ["Utils/readInput.cpp"], [("line parser", "Utils/readInput.cpp parseDoubleVector"), ("MAT reader", "Utils/readInput.cpp readMAT")],
     "Texts are generated from known rows. " + SAMPLED, ["rows returned"])

prop("C09", "Reading a file row by row gives the same rows as reading it at once",
     "For every input file, the streaming reader delivers the same rows in the same order as the batch reader and then reports the end, whatever the length of the lines. "
     "A reader that has opened nothing delivers nothing.",
     ["inputs", "histories"], "every CSV text, in particular with very long or blank lines",
     "The tests never stream an existing file.",
     ["Utils/readInput.cpp"], [("buffered line reader", "Utils/readInput.cpp streamRead")],
     "Differential between the two readers and the known rows. " + SAMPLED, ["rows returned"])

prop("C10", "Command-line options reach the configuration and modes select their pipeline",
     "Any mix of long and short options yields a configuration holding each given value under its full name, the documented default for every option not given, and the "
     "last value of a repeated one; stray or incomplete arguments only produce the usage text. Each mode expands to its own pipeline and settings, and a pipeline given explicitly is kept.",
     ["inputs", "configurations"], "every argument vector",
     "No test parses arguments.",
     ["Utils/argParser.cpp"], [("short-name and default tables", "Utils/argParser.cpp defaultArguments"), ("mode table", "Utils/argParser.cpp setPipeline")],
     "Compared with a model of the option and mode tables. " + SAMPLED, ["the argument map"])

prop("C17", "Set and distance primitives return the mathematical result",
     "For all inputs, union, intersection and symmetric difference, face and subset enumeration, and Euclidean and nearest-neighbour distances return exactly the mathematical value, in "
     "sorted order, without altering their arguments.",
     ["inputs"], "every pair of sets, equal, nested or disjoint ones included, and every point list",
     "The tests do not call them; errors show only for special relations between the arguments.",
     ["Utils/utils.cpp"], [("set algebra", "Utils/utils.cpp setUnion, setIntersect, symmetricDiff, setXOR"), ("subsets", "Utils/utils.cpp getSubsets")],
     "Compared with Python's own sets, combinations and arithmetic. " + SAMPLED, ["returned values"])

prop("C18", "Partitions cover the data and map back to the original points",
     "Splitting labelled data puts every point into the partition of its label, or into that of every centroid closer than the given radius, in the original order, with index lists that "
     "name the original points. The covering radius is the largest distance of a point from its centroid, and mapping a feature table back names the original points.",
     ["inputs"], "every labelled data set, radius and feature table",
     "The tests do not call them.",
     ["Utils/utils.cpp"], [("partitioning", "Utils/utils.cpp separatePartitions, separateBoundaryPartitions"), ("index mapping", "Utils/utils.cpp mapPartitionIndexing")],
     "Recomputed directly. " + SAMPLED, ["returned partitions and tables"])

prop("C22", "Stages are built by name and refuse to run unconfigured",
     "Every documented stage, preprocessor and complex name and alias yields that component and every other name yields none. Configuration succeeds exactly when the required "
     "settings are present, and a stage that was not configured leaves the data untouched.",
     ["inputs", "configurations"], "every name, complex type and subset of the settings",
     "The tests try a full and an empty configuration of some stages.",
     ["Pipes/basePipe.cpp", "Preprocessing/preprocessor.cpp", "Complex/simplexBase.cpp", "Pipes/fastPersistence.cpp", "Preprocessing/kMeansPlusPlus.cpp"],
     [("factories", "Pipes/basePipe.cpp newPipe"), ("configuration gate", "Pipes/basePipe.cpp runPipeWrapper")],
     "Compared with the table of names and required settings. " + SAMPLED, ["factory results, packet before and after"])

prop("C28", "Each executed stage reports one accurate statistics line",
     "Running a stage appends exactly one line to the statistics: its name, time, the size of the packet in the unit that fits, and the complex's vertex and simplex counts "
     "after the stage. Lines of earlier stages are kept.",
     ["inputs", "histories"], "every sequence of stages and packet size",
     "The tests never read the statistics.",
     ["Pipes/basePipe.cpp", "Pipes/pipePacket.cpp"], [("statistics and unit scaling", "Pipes/basePipe.cpp runPipeWrapper"), ("packet size", "Pipes/pipePacket.cpp getSize")],
     "Compared with the packet's own size and counts, across the unit borders. " + SAMPLED, ["stats of the packet"])

prop("C29", "Debugging changes no result and its dumps hold the stage's data",
     "Switching debugging on changes nothing in the results; each stage then leaves a file with exactly its points, distances, simplices or barcode, persistence pairs also a table of every simplex with its pairing. With debugging off no dump is written "
     "and no debug message appears, and messages go to the configured output only.",
     ["inputs", "configurations"], "every job, complex type and output target",
     "The tests never enable debugging or look at the dumps.",
     ["Pipes/basePipe.cpp", "Pipes/distMatrixPipe.cpp", "Pipes/neighGraphPipe.cpp", "Pipes/ripsPipe.cpp", "Complex/simplexBase.cpp"],
     [("stage dumps", "Pipes/neighGraphPipe.cpp outputData"), ("pair table", "Pipes/persistencePairs.cpp outputData"), ("debug level of complexes", "Complex/simplexBase.cpp setConfig")],
     "Differential between the two settings, and dumps compared with the reference complex. " + SAMPLED, ["dump files, console, log file"])

prop("C30", "Messages reach exactly the configured target",
     "Every log and error message appears once, in order and with its module name, on the console or at the end of the configured file. Debug messages appear only when debugging is on.",
     ["histories", "configurations"], "every history of messages through loggers of any level and target",
     "The tests never look at the messages.",
     ["Utils/utils.cpp"], [("message routing", "Utils/utils.cpp writeLog, writeDebug, writeFile")],
     "Compared with a model of console and files. " + SAMPLED, ["console and log files"])

prop("C12", "Clustering returns the centroids and labels of a k-means partition",
     "For every point set and cluster count, every point gets a label of an existing cluster, every centroid is the mean of its points, and there are as many clusters as asked for, or as "
     "many as there are distinct points. With enough iterations every point belongs to its nearest centroid, and the output files hold the same labels and centroids.",
     ["inputs", "configurations", "schedules"], "every point set, cluster count, iteration limit and random seeding",
     "The tests run one fixed cloud and look only for crashes; the seeding is random.",
     ["Preprocessing/kMeansPlusPlus.cpp", "Preprocessing/preprocessor.cpp"],
     [("classification and centroid update", "Preprocessing/kMeansPlusPlus.cpp runPreprocessor"), ("output files", "Preprocessing/preprocessor.cpp outputData")],
     "Every run is checked against the definition of a k-means partition. " + SAMPLED, ["returned centroids and labels", "output files"])

prop("C13", "Nearest-point and radius queries agree with a linear scan",
     "For every point set, indexed whole or in part, a nearest-point query returns a point at minimal distance and a radius query returns exactly the points within the radius, "
     "each with its own index.",
     ["inputs"], "every point set, query point and radius",
     "The tests never query the tree.",
     ["Preprocessing/kdTree.cpp"], [("branch pruning", "Preprocessing/kdTree.cpp findNearest, neighborhood"), ("construction", "Preprocessing/kdTree.cpp makeTree")],
     "Compared with a linear scan on grids full of ties and points on the dividing planes. " + SAMPLED, ["query results"])

prop("C14", "Density clustering finds exactly the density-connected groups",
     "For every point set, dense points carry the same label exactly if they are density-connected, other points within reach of a group carry the label of such a group, and the rest are noise. "
     "Labels count up from 1.",
     ["inputs", "configurations"], "every point set, radius and density",
     "The tests never call it.",
     ["Preprocessing/dbscan.cpp", "Preprocessing/kdTree.cpp"], [("cluster expansion", "Preprocessing/dbscan.cpp expandCluster")],
     "Compared with components of the graph of dense points. " + SAMPLED, ["labels"])

prop("C15", "A micro-cluster summarises the decayed points inserted into it",
     "After any history of timed insertions, a micro-cluster's weight, centre and radius are those of its points weighted by their exponential decay, "
     "and the radius predicted for an insertion is the radius after it.",
     ["histories"], "every history of insertions and queries, decay rate and dimension",
     "The tests never create one.",
     ["Preprocessing/denStream.cpp"], [("incremental sums", "Preprocessing/denStream.cpp insertPoint, mergeRadius")],
     "Compared with sums over all points. " + SAMPLED, ["weight, centre, radius"])

prop("C16", "Stream clustering follows its definition over the whole stream",
     "For every stream, the result is the centres of the micro-clusters the algorithm defines: dense groups of the initial batch, then each point joins the nearest micro-cluster that stays "
     "within the radius, groups are promoted once heavy enough and dropped once decayed. Earlier runs leave no trace.",
     ["inputs", "histories"], "every stream, radius and decay rate",
     "The tests run one fixed cloud and look only for crashes; promotion and decay need long histories.",
     ["Preprocessing/denStream.cpp", "Preprocessing/dbscan.cpp"],
     [("merging", "Preprocessing/denStream.cpp merging"), ("pruning", "Preprocessing/denStream.cpp runPreprocessor")],
     "Compared with a reference model of the stream clustering. Sampled, not exhaustive; long streams run without sanitizers.", ["returned centres"])

prop("C11", "A whole run of the program writes the barcode of its input file",
     "For every CSV input and every mix of options, a run in standard or fast mode reads the file, runs exactly the stages asked for and writes the barcode of its points and one statistics "
     "line per stage under the chosen name. It leaves the input untouched; an input without data shows the usage and writes nothing; unknown stages are reported and skipped.",
     ["inputs", "configurations", "histories"], "every input file, option mix and sequence of runs",
     "No test starts the program itself.",
     ["LHFmain/main.cpp", "Utils/argParser.cpp", "Utils/readInput.cpp", "Utils/writeOutput.cpp", "Pipes/basePipe.cpp"],
     [("wiring of reader, pipeline and writer", "LHFmain/main.cpp main, processDataWrapper"), ("mode defaults", "Utils/argParser.cpp setPipeline")],
     "The real main is run in a scratch directory per case; the barcode is recomputed independently. " + SAMPLED, ["files and console output of a run"])

prop("C19", "The naive window holds exactly the most recent points of the stream",
     "For every stream, once as many points have arrived as the window holds, the window is exactly the most recent ones, in order of arrival, and the complex built when it first fills "
     "is the neighborhood graph of those points. Shorter streams yield no window; earlier runs leave no trace.",
     ["inputs", "histories"], "every stream, of any length, and every sequence of runs",
     "The tests never feed the stage a stream.",
     ["Pipes/naiveWindow.cpp", "Complex/simplexTree.cpp", "Utils/readInput.cpp"], [("window update", "Pipes/naiveWindow.cpp runPipe"), ("initial complex", "Pipes/naiveWindow.cpp runComplexInitializer")],
     "Sampled, not exhaustive: streams of up to 330 points. The complex of later windows is not specified: upstream left its update switched off.", ["packet after the stage"])

prop("C20", "The sliding window admits and drops points as its partition statistics demand",
     "For every stream, the window at every report and at the end is the one the documented rules give: a point too close to a partition is refused, an admitted point displaces one of an "
     "outdated or other partition, and the statistics are always those of the points in the window. The stored distances are those of the window, the complex and weights when it first fills those of its neighborhood graph; earlier runs leave no trace.",
     ["inputs", "histories"], "every stream, of any length, and every sequence of runs",
     "The tests never feed the stage a stream; partitions only form after hundreds of points.",
     ["Pipes/slidingWindow.cpp"], [("admission rules", "Pipes/slidingWindow.cpp nnBasedEvaluator"), ("incremental statistics", "Pipes/slidingWindow.cpp deleteNNstats, updateStats")],
     "Compared with a model that recomputes all statistics at every point. Sampled, not exhaustive; long streams run without sanitizers.", ["window files, packet after the stage"])

prop("C23", "A reduced run reports each partition's features and the centroids' features",
     "For every input, a run in reduced mode reports the features of each partition, named by original point numbers, and those of the centroids, and nothing else; the barcode file is that of the centroids.",
     ["inputs", "configurations"], "every point cloud, cluster count and threshold",
     "No test starts the program itself, let alone in this mode.",
     ["LHFmain/main.cpp", "Preprocessing/kMeansPlusPlus.cpp", "Utils/utils.cpp"],
     [("per-partition runs and merging", "LHFmain/main.cpp processReducedWrapper"), ("partition index mapping", "Utils/utils.cpp separatePartitions, mapPartitionIndexing")],
     "Features of each partition are compared with a stand-alone run of the pipeline (itself checked by C01 and C06), the centroids' with an independent computation. " + SAMPLED,
     ["console output and files of a run"])

prop("C24", "A run with clustering first reports the barcode of the cluster centres",
     "For every input, a run with k-means++ or stream clustering writes its centres and labels, and the barcode written is that of the centres; a run told to split the work "
     "reports how many points each cluster holds.",
     ["inputs", "configurations"], "every point cloud, preprocessor, cluster count, threshold and complex type",
     "No test starts the program itself, and none checks a result after clustering.",
     ["LHFmain/main.cpp", "Preprocessing/preprocessor.cpp", "Preprocessing/kMeansPlusPlus.cpp", "Preprocessing/denStream.cpp"],
     [("preprocessor before pipeline", "LHFmain/main.cpp processDataWrapper"), ("partition counts", "LHFmain/main.cpp processUpscaleWrapper"), ("centroids as pipeline data", "Preprocessing/preprocessor.cpp runPreprocessorWrapper")],
     "The barcode is recomputed from the centres that the run's own labels define. " + SAMPLED, ["files of a run"])

def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                            **({"state": p["state"]} if p["state"] else {}),
                                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": [], "not_applicable": []}
    for p in P:
        if p["na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
            continue
        assert os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")), p["id"]
        assert len(p["title"]) <= 80, p["id"]
        m["checks"].append({"property": p["id"], "quick_cmd": "python3-vt checks/%s.py --tier quick" % p["id"],
                            "thorough_cmd": "python3-vt checks/%s.py --tier thorough" % p["id"],
                            "technique": p.get("tech") or "property-based testing (Hypothesis generators, shrinking, explicit oracle) of the instrumented real code",
                            "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
