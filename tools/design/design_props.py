txt.update({
'C01': '''Reference: index = x*y_len + y. Every encoder, decoder, extract by index, reshape and
membership array is evaluated for symbolic x_len, y_len and point and compared; encoders composed with
decoders must be the identity; the dtype of index arrays must hold every index (`wide`).''',
'C02': '''Each conversion (domain, absolute, relative to the query, reported) is evaluated on a symbolic
point and region and compared with the translation it must be; results are built by their own
constructors and read through their accessors (round trips).''',
'C03': '''The splitter is evaluated on plain, scaled, clustered and stacked regions (data, length, kind of
both parts); then the dataflow of the parts through training, error analysis and the solver: the
argument of every training call must be the training part, whatever length is asked for.''',
'C04': '''A whole query is evaluated: solver built by its constructor, prepared by its own code, result read
through the public accessors. Value at a symbolic point = forecast of the medoid of that point's label,
in and out of sample, plain and scaled, with length and error as asked for.''',
'C05': '''Membership tests, iteration (first, next, stop), indices, lengths, extracts and constructors of
crisp, fuzzy and spatio-temporal clusters for a symbolic label matrix.''',
'C06': '''Every derivation (subset, interval, repeat, new region, empty region, function result) on every
kind of region and decorator stack: data, kind, partition, cluster index, scaling and metadata of the
result.''',
'C07': '''scale then descale is the identity as a value graph, bounds are those of the same point, guards for
missing and constant series included; each derived region carries the bounds of its points.''',
'C08': '''MASE, sMAPE, MSE and their overall forms at a symbolic point; observation, training and forecast in
their roles and in original units (receivers of the calls are compared); the forecast analysis uses
forecasts of the current models; the parallel version is evaluated with the process pool as a sequence
(initialiser, then the task for every item).''',
'C09': '''Paths and objects of every writer and reader are evaluated and compared pairwise; a dependence
analysis decides per stored result and parameter whether the path identifies the parameter (injective
position in the text, no merged ranges or lossy formats).''',
'C10': '''Writer composed with reader (repr/parser, CSV rows/CSV reader) on pieces of formatted text: the
result must be the parameters that were written, for every value.''',
'C11': '''Constant tables are unrolled completely, each entry is compared with what its key says; factories
are compared for a symbolic name; unknown names must raise.''',
'C12': '''Header and row of each table are paired; each column is compared with the meaning of its name;
lengths agree for every kind of result; the writing loops write one row per item.''',
'C13': '''Training, retraining, replication and forecasting over a symbolic region as functions of the cell:
the model at a point is trained with the series and the parameters of that point, and so is its
forecast; merging of clusters puts each value at its own point.''',
'C14': '''Training, refitting, forecasting and measuring at a point without data, parameters or model give the
missing value of the right length; the counter counts each such point once; minima and maxima skip
missing values.''',
'C15': '''Cost, labels, candidates and initial medoids as value graphs; inductive invariants over the loop nest
(accepted medoids, labels and cost belong together; a candidate replaces only when cheaper; the search
stops only when nothing improves or the limit is reached).''',
'C16': '''Distance measures, matrices (serial, parallel, spatially weighted), loading rules and extracts cell by
cell; the parallel computation by what workers receive and where results go.''',
'C17': '''Tables of training data, choice of the best medoid, labels, queries, synthetic series and the models
found again for a label, compared with their reference semantics.''',
'C18': '''Windows and their number, the neighbours among all earlier windows, their mean, the rejected
requests, and the routing of parameters to each point.''',
'C19': '''Samples of a range of years (leap days), daily averages, the saved interval and the region made from
them, sample by sample.''',
'C20': '''Selections as functions of the values they choose from: value and place agree, missing values are
skipped, empty input, elbow of sorted distances, centroid errors.''',
'C21': '''Whole-program resolution: names, imports, attributes per instantiable class, call signatures, text
templates, argparse options. Three recorded findings.''',
'C22': '''Experiment programs as functions of the parsed arguments: which regions, clusterings, parameters,
lengths and trainers reach the library; the table of options of each program.''',
'C23': '''Rectangles and labels of a regular partition cover the region, medoids found for a partition,
what is computed, loaded, saved and reported for a clustering, ordering of clusters and merged values.''',
'C24': '''The effect analysis described above over all functions, plus laws for the places where a kept value
must follow its inputs (iterators, memoised centroids, cached forecasts).''',
'C25': '''Programs that save and then load are evaluated with a model of the file system (path term -> saved
value): whatever the files are called, the loaded object, its attributes and its partition are the saved
ones, and nothing that was saved is altered by saving. Modes of opening matter: appended or truncated
files are different contents.''',
'C26': '''The drawing calls (what, where on the grid, title, labels, file) are the observable result of a plot;
they are compared with the required ones for symbolic data. Order of savefig/show/new figure included
(`unsaved`, `misplaced` mark a figure saved after it is shown or drawn in another figure).''',
})
