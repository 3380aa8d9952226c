"""Every metric's value graph (all helpers inlined, loops solved to recurrences) is compared with its
reference definition: the mean over all example pairs of the per-example term, or its square root."""
METRICS = {'L2': 'metric_l2', 'Rmse': 'metric_rmse', 'BinaryLoss': 'metric_binary_loss',
           'BinaryError': 'metric_binary_error', 'BinaryError01': 'metric_binary_error01'}
def check(c):
    for name, spec in METRICS.items():
        def go():
            f = c.fn(r'^<bitboost::metric::%s as bitboost::metric::Metric>::eval$' % name)
            r = c.run(f)
            s = c.spec(spec, r['args'][1:])
            c.same('metric/%s/value' % name, r['ret'], s['ret'], f['name'], 'metric value', rule='value-graph equality with reference')
        c.guard('metric/%s/value' % name, go)
