_HISTORY = 'property-based testing (Hypothesis): generated simulations and scripted move sequences, invariant checked ' \
           'after every move'
for _p in ('C01', 'C02', 'C03', 'C04', 'C05'):
    TECHNIQUE[_p] = _HISTORY
TECHNIQUE.update({
    'C06': 'property-based testing (Hypothesis): metamorphic relations and invariants over generated configurations',
    'C07': 'property-based testing (Hypothesis): differential against independent reference formulas',
    'C08': 'property-based testing (Hypothesis): reference model and conservation law over generated pools',
    'C09': 'property-based testing (Hypothesis): differential against a reference valuation',
    'C10': 'property-based testing (Hypothesis): every decision of generated histories against a reference model of the '
           'options',
    'C11': 'property-based testing (Hypothesis): every decision of generated histories against a reference model',
    'C12': 'property-based testing (Hypothesis): every decision of generated histories against a reference model',
    'C13': 'property-based testing (Hypothesis): invariants over whole runs, with idleness decided independently',
    'C14': 'property-based testing (Hypothesis): invariants over the history of activations',
    'C15': 'property-based testing (Hypothesis): metamorphic and differential relations between whole runs, also in new '
           'processes',
    'C16': 'property-based testing (Hypothesis): invariants and differential relations over runs with several phases',
    'C17': 'property-based testing (Hypothesis): differential against reference metrics',
    'C18': 'property-based testing (Hypothesis): differential against reference metrics, and metamorphic laws',
    'C19': 'property-based testing (Hypothesis): differential between recorded series and independent snapshots',
    'C24': 'property-based testing (Hypothesis) as a fuzzer: wide and extreme configurations, crash and sanity oracle',
    'C25': 'property-based testing (Hypothesis): differential against reference calculations',
    'C26': 'property-based testing (Hypothesis): metamorphic relations between whole runs',
    'C20': 'property-based testing (Hypothesis): round-trip of files against the simulation that wrote them',
    'C21': 'property-based testing (Hypothesis): round-trip of saved objects, in the same and in new processes',
    'C22': 'property-based testing (Hypothesis): differential between batch instances and runs of their own',
    'C23': 'property-based testing (Hypothesis): grammar-based command lines against a model of the documented options',
    'C27': 'property-based testing (Hypothesis): rendered charts against an independent reading of the state, through the '
           'scripts of the page as well',
    'C28': 'stateful property-based testing (Hypothesis): generated histories of executions against a model of the '
           'directory',
    'C29': 'property-based testing (Hypothesis): round-trip of argument files, and mutated files',
    'C32': 'property-based testing (Hypothesis): reference definitions, exact and statistical, over generated inputs and '
           'states',
    'C33': 'fault injection driven by property-based testing (Hypothesis): kills, exceptions and failing file operations at '
           'generated points of generated executions',
    'C34': 'property-based testing (Hypothesis): generated reward schemes in generated simulations and histories, against '
           'invariants and reference models of all decisions',
    'C35': 'property-based testing (Hypothesis): generated stakeholder profiles in generated simulations and histories, '
           'against invariants and reference models of all decisions',
    'C31': 'stateful property-based testing (Hypothesis): generated sessions against a model of the server and of the page',
    'C30': 'property-based testing (Hypothesis): saved figures, read back from their axes, against the recorded results',
})
