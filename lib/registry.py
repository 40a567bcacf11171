import p_arch
import p_combine
import p_config
import p_forward
import p_ir
import p_metrics
import p_net
import p_order
import p_traits
import p_util

CHECKS = {
    'P01': p_arch.iterators,
    'P02': p_arch.values,
    'P03': p_arch.proxies,
    'P04': p_arch.callables,
    'P05': p_traits.traits,
    'P06': p_forward.dispatch,
    'P07': p_forward.adapters,
    'P08': p_forward.facade,
    'P09': p_ir.memory,
    'P10': p_ir.exceptions,
    'P11': p_ir.purity,
    'P12': p_ir.leaks,
    'P13': p_ir.narrowing,
    'P14': p_net.networks,
    'P15': p_net.fixed,
    'P16': p_combine.combinators,
    'P17': p_metrics.counts,
    'P18': p_order.orders,
    'P19': p_ir.temporaries,
    'P20': p_config.headers,
    'P21': p_config.reading,
    'P22': p_util.entry,
    'P23': p_util.utilities,
}
