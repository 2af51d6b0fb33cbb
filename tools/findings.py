'''Writes known-findings.json (by hand, never by a check).'''
import json, os
FIXED = '''
efe1a8a C06 region_with_zeroes of a region used the Region class instead of the given region
4db0e9a C14 series_at(None) fell through the missing-point guard
a9b7bea C21 get_centroid of a spatio-temporal region called a method that does not exist
9dd4bb9 C09 saving a scaled region used missing filenames and the metadata of the decorated region
53be634 C05 the generic cluster_len never counted any member
cb2d610 C21 merge_clusters_2d discarded the clusters ordered by index
4330c55 C07 interval and rectangle subsets of a scaled region kept the scaling data of the whole region
43b82db C06 repeat_point on decorated spatio-temporal regions used the spatial version
8889b99 C21 analyze_errors tested the has_centroid method itself instead of calling it
39e583b C08 a forecast request before training raised AttributeError instead of ValueError
5fe18ed C08 training again kept the forecasts of the previous models
980ede0 C08 measuring errors of a scaled region without a training region failed
345d50d C14 auto ARIMA training failed on a missing series before checking for it
67da186 C09 partitions were always saved and loaded under the default pickle directory
d03de80 C09 solver metadata with clustering did not accept the pickle directory
e022892 C09 k-medoids metadata of different seeds were equal, mixing the costs of a suite with several seeds
76cd705 C09 k-medoids metadata recovered from its representation lost the initial medoids
7fc07ac C09 the RMSE distance had no stable representation to identify its results
67b3331 C09 spatially weighted DTW was identified as plain DTW and lost its weights when reloaded
5e52c65 C09 results of the classifier solver ignored the requested output directory
400672d C09 the classifier result filename ignored the prediction region and the past samples
a9b8fc0 C02 the medoids to avoid as random points ignored the offset of the region
9c1bea3 C21 fuzzy k-medoids failed when the initial medoids were already the best
b5263e5 C09 the representation of KNN parameters did not identify the distance measure
c96125e C21 an unknown k-medoids mode failed with an undefined variable
5dd0bbd C15 the report of a k-medoids run failed when a cluster had no members
06c7c7c C16 the distances to a point failed with an assertion when no distance matrix was saved
38f0953 C21 DBSCAN clustering referred to an undefined name
fd970af C17 a second classifier query ignored the out-of-sample region it was given
4b2443b C17 the minimum-distance choice of medoids failed without the arguments of the other choice
0fb1143 C17 the noise of the synthetic series was not reproducible with the random seed
9d7ce4f C21 the demos of the clustering modules used parameters of the region metadata that do not exist
75fb5a7 C21 a dataset that was not saved before was reported as an error loading it
45699cd C09 k-medoids partitions of a different number of iterations or tolerance were saved under the same name
8ac7ddf C23 partition_2d of a spatial region failed with AttributeError
fab5199 C26 the statistics of the distances in a cluster with a single point failed with ValueError
f9ee52e C26 a partition plotted with a rectangle and no subplot failed with AttributeError
5d50753 C06 a descaled cluster of a scaled region was still marked as scaled, so that it was descaled again
060b4d5 C26 the plots of distances were saved after they had been shown, which leaves an empty figure
'''
KNOWN = [
    {'property': 'C11', 'status': 'known', 'obligation': 'clustered ARIMA experiments',
     'match': "experiment 'arima_whole_brazil': 'even' refers to nothing",
     'what': "experiments/metadata/arima_clustering.py: the experiment arima_whole_brazil refers "
             "to the k-medoids suite 'even', which does not exist (selecting it fails with "
             "KeyError)"},
    {'property': 'C21', 'status': 'known', 'obligation': 'imports',
     'match': 'no module spta.arima.forecast spta/arima/fuzzy_sensibility.py',
     'what': 'spta/arima/fuzzy_sensibility.py cannot be imported: it imports spta.arima.forecast, '
             'which does not exist anymore'},
    {'property': 'C21', 'status': 'known', 'obligation': 'imports',
     'match': 'no module spta.region.forecast spta/arima/performance.py',
     'what': 'spta/arima/performance.py cannot be imported: it imports spta.region.forecast, which '
             'does not exist anymore (the module says that it does not work)'},
    {'property': 'C21', 'status': 'known', 'obligation': 'imports',
     'match': 'no module spta.region.train spta/arima/performance.py',
     'what': 'spta/arima/performance.py imports spta.region.train, which does not exist anymore'},
    {'property': 'C21', 'status': 'known', 'obligation': 'imports',
     'match': 'spta.arima has no arima spta/arima/performance.py',
     'what': 'spta/arima/performance.py imports spta.arima.arima, which does not exist anymore'},
    {'property': 'C21', 'status': 'known', 'obligation': 'imports',
     'match': 'spta.arima has no ArimaParams spta/arima/performance.py',
     'what': 'spta/arima/performance.py imports ArimaParams, which does not exist anymore'},
    {'property': 'C21', 'status': 'known', 'obligation': 'imports',
     'match': 'experiments.metadata.arima_clustering has no arima_clustering_experiments '
              'experiments/arima/fuzzy_sensibility.py',
     'what': 'experiments/arima/fuzzy_sensibility.py cannot be imported: it imports '
             'arima_clustering_experiments, which does not exist (the module says that it does not '
             'work anymore)'},
    {'property': 'C21', 'status': 'known', 'obligation': 'attributes',
     'match': 'class SpatioTemporalRegion has no load_1year_1ppd spta/dataset/distances_1y_1ppd.py',
     'what': 'spta/dataset/distances_1y_1ppd.py main() calls SpatioTemporalRegion.load_1year_1ppd, '
             'which does not exist anymore'},
    {'property': 'C21', 'status': 'known', 'obligation': 'attributes',
     'match': 'spta.util.parallel has no Parallel2DQueue spta/distance/dtw_parallel.py',
     'what': 'DistanceByDTWParallel.compute_distance_matrix_sptr_old uses parallel.Parallel2DQueue, '
             'which does not exist anymore'},
]
out = []
for l in FIXED.strip().splitlines():
    c, p, what = l.split(' ', 2)
    out.append({'property': p, 'status': 'fixed', 'commit': c, 'what': what,
                'text': 'fixed: property=%s %s %s' % (p, c, what)})
out += KNOWN
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                 'known-findings.json'), 'w'), indent=1)
