'''C12: the rows of every table carry under each header the value the header names.'''
from sa.prop import *     # noqa
from props import shared

P = Prop('C12',
         'Value-graph evaluation of header and row of every CSV table: the row is paired with its '
         'header and, column by column, the value is compared with what the name of the column '
         'means; the writing loops are compared with the required sequence of rows.',
         cfg={'name_types': {'rm': 'SpatioTemporalRegionMetadata', 'dm': 'DistanceByDTW',
                             'fs': 'SpatioTemporalRegion', 'ts': 'SpatioTemporalRegion',
                             'er': 'ErrorRegion', 'pr': 'Region', 'p': 'Point',
                             'spt': 'SpatioTemporalRegion', 'part': 'PartitionRegionCrisp'},
              'attr_types': {'region_metadata': 'SpatioTemporalRegionMetadata',
                             'region': 'Region'}})
R = 'spta.solver.result.'
ARGS = 'rm, mp, tp, et, fl, fs, ts, er, pr, spt, oh, k, seed, dm, part, p, labels, suite'
KMD = 'KmedoidsClusteringMetadata(k, random_seed=seed)'
RMD = 'RegularClusteringMetadata(k)'
PRE = '''
    cm = %s
    md = SolverMetadataBuilder(rm, mp, tp, et).with_clustering(cm, dm).build()
    b = PredictionQueryResultBuilder(md, fl, fs, ts, er, pr, spt, oh, %s)
'''
KINDS = [('in-sample', KMD, False, ''), ('out-of-sample', KMD, True, ''),
         ('in-sample with partition', KMD, False, '.with_partition(part)'),
         ('out-of-sample with partition', KMD, True, '.with_partition(part)'),
         ('in-sample with regular partition', RMD, False, '.with_partition(part)'),
         ('from classifier', KMD, False, '.from_classifier(suite, labels)')]
COLS = {
    'Point': ('spta.solver.result.PredictionQueryResult.result_tuple_for_point',
              'rm.absolute_position_of_point(q)'),
    'error': ('spta.solver.result.PredictionQueryResult.result_tuple_for_point',
              "'{:.3f}'.format(er.value_at(p))"),
    'forecast_series': ('spta.solver.result.PredictionQueryResult.result_tuple_for_point',
                        'fs.series_at(p)'),
    'test_series': (R + 'InSampleResult.result_tuple_for_point', 'ts.series_at(p)'),
    'cluster_index': (R + 'ResultWithPartition.result_tuple_for_point',
                      'part.membership_of_points([q])[0]'),
    'label': (R + 'ResultFromClassifier.result_tuple_for_point', 'labels[p]'),
}
MEDOID_DISTANCE = '''
    n = spt.series_len - tp
    test = spt.interval_subset(TimeInterval(n, spt.series_len))
    seen = [e[1] for e in test.region_subset(pr)]
    ds = []
    for m in part.find_medoids_of_clusters_intersecting_with(pr):
        ds.append(dm.combine(dm.compute_distances_to_a_series(test.series_at(m), seen)))
'''
SUMS = {
    'tp': (R + 'PredictionQueryResult.summary_tuple', '', 'str(tp)'),
    'mse': (R + 'PredictionQueryResult.summary_tuple', '',
            "'{:.3f}'.format(np.nanmean(np.array([er.value_at(u) for u in "
            "PredictionQueryResultBuilder(md, fl, fs, ts, er, pr, spt, oh, OUT).build()]) ** 2))"),
    'clusters': (R + 'ResultWithPartition.summary_tuple', '',
                 'len(part.find_indices_of_clusters_intersecting_with(pr))'),
    'dtw_r_m': (R + 'ResultWithPartition.summary_tuple', MEDOID_DISTANCE,
                "'{:.2f}'.format(np.nanmean(np.array(ds) ** 2) ** 0.5)"),
    'k': (R + 'ResultWithPartition.summary_tuple', '', 'cm.k'),
    'seed': (R + 'ResultWithPartition.summary_tuple', '', 'cm.random_seed'),
    'mode': (R + 'ResultWithPartition.summary_tuple', '', 'cm.mode'),
    'type': (R + 'ResultWithPartition.summary_tuple', '', 'cm.name'),
    'suite': (R + 'ResultFromClassifier.summary_tuple', '', "'{!r}'.format(suite)"),
}
KEEP = ('find_indices_of_clusters_intersecting_with', 'find_medoids_of_clusters_intersecting_with')


def columns(kind, what):
    res = ['Point', 'error', 'forecast_series']
    if kind.startswith('in-') or 'class' in kind:
        res.append('test_series')
    sm = ['tp', 'mse']
    if 'partition' in kind:
        res.append('cluster_index')
        sm += ['type', 'k', 'clusters', 'dtw_r_m'] + ([] if 'regular' in kind else ['seed', 'mode'])
    if 'class' in kind:
        res.append('label')
        sm.append('suite')
    return res if what == 'result' else sm


for kind, cm, out, deco in KINDS:
    pre = PRE % (cm, out)
    for what, head, row in (('result', 'result_header()', 'result_tuple_for_point(p)'),
                            ('summary', 'summary_header()', 'summary_tuple()')):
        anchor = R + 'PredictionQueryResult.' + head[:-2]
        P.law('%s of %s: width' % (what, kind), anchor,
              'def a(%s):%s    r = b%s.build()\n    return len(r.%s) == len(r.%s)\n'
              % (ARGS, pre, deco, head, row), 'def b(%s):\n    return True\n' % ARGS,
              keep=KEEP, rule='the header has as many columns as the rows')
        for c in columns(kind, what):
            at, *body = COLS[c] if what == 'result' else SUMS[c]
            body = [''] + body if what == 'result' else body
            P.law('%s of %s: column %s' % (what, kind, c), at,
                  'def a(%s):%s    r = b%s.build()\n    return dict(zip(r.%s, r.%s))[%r]\n'
                  % (ARGS, pre, deco, head, row, c),
                  'def b(%s):%s    q = Point(p.x + pr.x1, p.y + pr.y1)\n%s    return %s\n'
                  % (ARGS, pre, body[0], body[1].replace('OUT', str(out))), keep=KEEP,
                  rule='the value under the header %s is what the header names' % c)

# ---------------------------------------------------------------- the files of a query
FKEEP = KEEP + tuple(x + n for n in ('csv_dir', 'csv_filename', 'result_header', 'summary_header',
                                     'result_tuple_for_point', 'summary_tuple') for x in ('', '!'))
for kind, cm, out, deco in KINDS:
    P.law('files of %s' % kind, R + 'PredictionQueryResult.save_as_csv',
          'def a(%s):%s    r = b%s.build()\n    r.save_as_csv()\n' % (ARGS, PRE % (cm, out), deco),
          '''def b(%s):%s    r = b%s.build()
    d = md.csv_dir(oh, pr)
    import os, csv
    for f, h, rows in ((md.csv_filename(%r, pr, %s), r.result_header(),
                        [r.result_tuple_for_point(p) for p in r]),
                       (md.csv_filename('query-summary', pr, %s), r.summary_header(),
                        [r.summary_tuple()])):
        with open(os.path.join(d, f), 'w', newline='') as o:
            w = csv.writer(o, delimiter=' ', quotechar='|', quoting=csv.QUOTE_MINIMAL)
            w.writerow(h)
            w.writerows(rows)
''' % (ARGS, PRE % (cm, out), deco, 'query-result-future' if out else 'query-result',
       'fl' if out else '0', 'fl' if out else '0'),
          aspect=tables, keep=FKEEP,
          rule='the results hold the header and one row per point of the query, the summary the '
          'header and its row, each in its own file')


@P.rule('files of a query: directory exists', 'the directory is created before the files are written')
def _(cx):
    fn = cx.find(R + 'PredictionQueryResult.save_as_csv')
    I = cx.interp(keep=FKEEP)
    r = I.client('def a(%s):%s    r = b.build()\n    r.save_as_csv()\n' % (ARGS, PRE % (KMD, False)))
    cx.functions |= I.functions_seen
    made, outs = set(), []
    for e in r.trace:
        if e.kind == 'call' and e.args[1] in ('os.makedirs', 'os.mkdir'):
            made.add(e.args[2][0])
        if e.kind == 'call' and e.args[1] == 'open':
            cx.sites += 1
            if not made:
                outs.append(Outcome(VIOLATION, 'no directory is created before the files are '
                                    'written', cx.where(fn)))
    return outs or [Outcome(OK)]
shared.solver_metadata(P)
