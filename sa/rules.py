RULES = {}


def rule(pid, *crates):
    """registers a property's rule; its doc string says what it decides"""

    def d(f):
        RULES[pid] = (f, crates, " ".join(f.__doc__.split()))
        return f

    return d


import rules_core  # noqa
import rules_fraos  # noqa
import rules_fraos2  # noqa
import rules_fraos3, rules_fraos4  # noqa
import rules_multiverse  # noqa
import rules_store  # noqa
import rules_select, rules_thermostat, rules_offer  # noqa
import rules_ilm  # noqa
import rules_chain  # noqa
import rules_cip  # noqa
import rules_serde  # noqa
