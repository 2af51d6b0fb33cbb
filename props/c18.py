'''C18: nearest neighbours of the last window.'''
from sa.prop import *     # noqa

P = Prop('C18', 'Value-graph evaluation of sliding windows, nearest neighbours and their mean, '
         'element by element.',
         cfg={'ndims': {'x': 1, 'time_series': 1, 'array': 1, 'w': 2, 'possible_neighbors': 2},
              'ints': ('k', 'n', 'forecast_len', 'window_len'),
              'scalars': ('i', 'j', 'm'), 'ndims': {'x': 1, 'w': 2}})
A = 'spta.util.arrays.'
K = 'spta.model.knn.'

P.law('windows: content', A + 'sliding_window', '''
def a(x, n, i, j):
    from spta.util.arrays import sliding_window
    return sliding_window(x, n)[i, j]
''', '''
def b(x, n, i, j):
    return x[i + j]
''')
P.law('windows: count', A + 'sliding_window', '''
def a(x, n):
    from spta.util.arrays import sliding_window
    return len(sliding_window(x, n))
''', '''
def b(x, n):
    return len(range(0, len(x) - n + 1))
''')
P.law('windows: length', A + 'sliding_window', '''
def a(x, n, s):
    from spta.util.arrays import sliding_window
    return sliding_window(x, n, s).shape[1]
''', '''
def b(x, n, s):
    return n
''')
P.law('windows with a stride', A + 'sliding_window', '''
def a(x, n, s, i, j):
    from spta.util.arrays import sliding_window
    return sliding_window(x, n, s)[i, j]
''', '''
def b(x, n, s, i, j):
    return x[i * s + j]
''')
P.same(K + 'predict_future_values_with_knn', '''
def w(time_series, k, forecast_len, distance_measure):
    from spta.util.arrays import sliding_window
    from spta.model.knn import find_k_nearest_neighbors
    w = sliding_window(time_series, forecast_len)
    return np.mean(w[:-1].take(find_k_nearest_neighbors(w[-1], k, w[:-1], distance_measure), axis=0), axis=0)
''', keep=('sliding_window', 'find_k_nearest_neighbors'))
P.same(K + 'find_k_nearest_neighbors', '''
def w(array, k, possible_neighbors, distance_measure):
    if np.any([len(p) != len(array) for p in possible_neighbors]):
        raise ValueError
    if len(possible_neighbors) < k:
        raise ValueError
    if len(possible_neighbors) == k:
        return tuple(range(0, k))
    return tuple(np.argpartition(np.array([distance_measure.measure(array, p) for p in possible_neighbors]), k)[:k])
''', strict='raises')
P.law('a model forecasts with its own series and parameters', K + 'ModelRegionKNN.forecast_from_model', '''
def a(self: ModelRegionKNN, m: KNNModel, n, v, p):
    return self.forecast_from_model(m, n, v, p)
''', '''
def b(self: ModelRegionKNN, m: KNNModel, n, v, p):
    from spta.model.knn import predict_future_values_with_knn
    return predict_future_values_with_knn(m.training_series, m.model_params.k, n, m.model_params.distance_measure)
''', keep=('spta.model.knn.predict_future_values_with_knn',))
P.law('the model of a series', K + 'TrainerKNN.training_function', '''
def a(p, x, y, q, s):
    from spta.model.knn import TrainerKNN
    m = TrainerKNN(p, x, y).training_function(q, s)
    return m.model_params, m.training_series
''', '''
def b(p, x, y, q, s):
    return q, s
''')
W = 'spta.classifier.sliding_window.'
P.same(W + 'apply_sliding_window_to_labeled_series', '''
def w(df, window_size):
    import pandas as pd
    from spta.classifier.sliding_window import extract_windows_from_one_tuple
    n = df.shape[1] - 1
    return pd.concat([extract_windows_from_one_tuple(df.iloc[[t]], window_size, n)
                      for t in range(df.shape[0])]).reset_index(drop=True)
''', keep=('extract_windows_from_one_tuple',))


def rolled(I, recv, args, kw, e):
    '''rolling(n).apply(f): f is called with every window'''
    I.apply(args[0], [mk('call', 'window of', (I.reify(recv), mk('tuple', '', tuple(kw.get(k, NONE) for k in ('raw',)))), ())], {}, e)
    return mk('call', 'rolled', (I.reify(recv),), ())


P.same(W + 'extract_windows_from_one_tuple', '''
def w(df_one, window_size, series_len):
    import pandas as pd
    d = df_one.melt(id_vars=['label'], value_vars=['s' + str(i) for i in range(series_len)], value_name='Temp').reset_index(drop=True)
    values = []
    d.Temp.rolling(window_size).apply(lambda x: values.append(x) or 0, raw=True)
    d['window'] = np.concatenate((np.zeros((window_size - 1,)), pd.Series(values).values))
    d = d.iloc[window_size - 1:].reset_index(drop=True)
    d['offset'] = np.arange(0, series_len - window_size + 1)
    return d.loc[:, ['label', 'window', 'offset']]
''', hooks={'.apply': rolled})
