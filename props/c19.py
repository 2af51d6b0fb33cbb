'''C19: years, samples and datasets.'''
from sa.prop import *     # noqa

P = Prop('C19', 'Value-graph evaluation of the interval of samples of a range of years, of the daily '
         'averages, and of the region made from them, sample by sample.',
         cfg={'ndims': {'X': 3, 'numpy_dataset': 3}, 'scalars': ('i', 'j', 'n', 'spd', 'ys', 'ye', 'f'),
              'ints': ('spd', 'ys', 'ye', 'f')})
M = 'spta.util.maths.'
D = 'spta.dataset.temp_brazil.'
R = 'spta.region.metadata.SpatioTemporalRegionMetadata.'

P.same(M + 'years_to_series_interval', '''
def w(year_start, year_end, first_year_in_sample, samples_per_day):
    from datetime import datetime
    first = datetime(first_year_in_sample, 1, 1)
    return ((datetime(year_start, 1, 1) - first).days * samples_per_day,
            (datetime(year_end + 1, 1, 1) - first).days * samples_per_day)
''')
P.law('samples of a range of years', D + 'read_hdf5_dataset_by_year', '''
def a(ys, ye, src):
    from spta.dataset.temp_brazil import read_hdf5_dataset_by_year
    return read_hdf5_dataset_by_year(ys, ye, src)
''', '''
def b(ys, ye, src):
    from spta.dataset.temp_brazil import read_hdf5_dataset
    from spta.util.maths import years_to_series_interval
    if ys > ye or ys < 1979 or ye > 2015:
        raise ValueError
    t1, t2 = years_to_series_interval(ys, ye, 1979, 4)
    return read_hdf5_dataset(t1, t2, src)
''', keep=('years_to_series_interval', 'read_hdf5_dataset'), strict='raises')
P.law('daily means', D + 'average_4spd_to_1spd', '''
def a(X, n, i, j):
    from spta.dataset.temp_brazil import average_4spd_to_1spd
    return average_4spd_to_1spd(X)[n, i, j]
''', '''
def b(X, n, i, j):
    return np.mean([X[4 * n + k, i, j] for k in range(4)])
''')
P.law('number of days', D + 'average_4spd_to_1spd', '''
def a(X):
    from spta.dataset.temp_brazil import average_4spd_to_1spd
    return average_4spd_to_1spd(X).shape
''', '''
def b(X):
    return X.shape[0] // 4, X.shape[1], X.shape[2]
''')
P.law('samples read from the file', D + 'read_hdf5_dataset', '''
def a(t1, t2, src):
    from spta.dataset.temp_brazil import read_hdf5_dataset
    return read_hdf5_dataset(t1, t2, src)
''', '''
def b(t1, t2, src):
    import os
    import h5py
    if not os.path.exists(src):
        raise ValueError
    with h5py.File(src, 'r') as f:
        return f['real'][...][t1:t2, :, :]
''', strict='raises')
for spd, made in ((1, 'average_4spd_to_1spd(x)'), (4, 'x')):
    P.law('dataset with %d samples per day' % spd, D + 'retrieve_dataset_interval', '''
def a(ys, ye, name):
    from spta.dataset.temp_brazil import retrieve_dataset_interval
    return retrieve_dataset_interval(ys, ye, %d, name)
''' % spd, '''
def b(ys, ye, name):
    from spta.dataset.temp_brazil import (try_load_dataset_interval, read_hdf5_dataset_by_year,
                                          average_4spd_to_1spd, RAW_DATASET)
    r = try_load_dataset_interval(name, ys, ye, %d)
    if r[0] is not None:
        return r[0]
    x = read_hdf5_dataset_by_year(ys, ye, RAW_DATASET)
    return %s
''' % (spd, made), keep=('try_load_dataset_interval', 'read_hdf5_dataset_by_year',
                         'average_4spd_to_1spd', 'save_dataset_interval'))
    P.law('saved dataset with %d samples per day' % spd, D + 'retrieve_dataset_interval', '''
def a(ys, ye, name):
    from spta.dataset.temp_brazil import retrieve_dataset_interval
    return retrieve_dataset_interval(ys, ye, %d, name)
''' % spd, '''
def b(ys, ye, name):
    from spta.dataset.temp_brazil import (try_load_dataset_interval, read_hdf5_dataset_by_year,
                                          average_4spd_to_1spd, RAW_DATASET, save_dataset_interval)
    if try_load_dataset_interval(name, ys, ye, %d)[0] is None:
        x = read_hdf5_dataset_by_year(ys, ye, RAW_DATASET)
        save_dataset_interval(%s, name, ys, ye, %d)
''' % (spd, made, spd), keep=('try_load_dataset_interval', 'read_hdf5_dataset_by_year',
                              'average_4spd_to_1spd', 'save_dataset_interval'),
          aspect=calls('save_dataset_interval'))
P.law('other samples per day', D + 'retrieve_dataset_interval', '''
def a(ys, ye, spd, name):
    from spta.dataset.temp_brazil import retrieve_dataset_interval
    if spd == 1 or spd == 4:
        return None
    return retrieve_dataset_interval(ys, ye, spd, name)
''', '''
def b(ys, ye, spd, name):
    if spd == 1 or spd == 4:
        return None
    raise ValueError
''', strict='raises', keep=('try_load_dataset_interval', 'read_hdf5_dataset_by_year',
                          'average_4spd_to_1spd', 'save_dataset_interval'))
P.law('saved dataset is used', D + 'try_load_dataset_interval', '''
def a(ys, ye, spd, name):
    import os
    from spta.dataset.temp_brazil import try_load_dataset_interval
    return try_load_dataset_interval(name, ys, ye, spd)[0]
''', '''
def b(ys, ye, spd, name):
    import os
    f = 'raw/{}_{}_{}_{}spd.npy'.format(name, ys, ye, spd)
    try:
        if os.path.exists(f):
            return np.load(f)
    except Exception:
        pass
    return None
''')
MD = "SpatioTemporalRegionMetadata('n', Region(x1, x2, y1, y2), ys, ye, spd, scaled=%s)"
for sc in (False, True):
    P.law('region, %s' % ('scaled' if sc else 'not scaled'), R + 'create_instance', '''
def a(x1, x2, y1, y2, ys, ye, spd):
    from spta.region.metadata import SpatioTemporalRegionMetadata
    m = %s
    r = m.create_instance()
    return r.numpy_dataset, r.has_scaling(), r.region_metadata is m
''' % (MD % sc), '''
def b(x1, x2, y1, y2, ys, ye, spd):
    from spta.dataset.temp_brazil import retrieve_dataset_interval
    from spta.region.scaling import ScaleFunction
    if spd != 1 and spd != 4:
        raise ValueError
    d = retrieve_dataset_interval(ys, ye, spd)[:, x1:x2, y1:y2]
    %s
    return r.numpy_dataset, %s, True
''' % ('r = ScaleFunction(d.shape[1], d.shape[2]).apply_to(SpatioTemporalRegion(d), d.shape[0])' if sc
       else 'r = SpatioTemporalRegion(d)', sc), keep=('retrieve_dataset_interval',),
          strict='raises')
