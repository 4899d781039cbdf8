from hypothesis import strategies as st
from .. import gen, ops
ID = 'C10'
QUICK, THOROUGH = 2600, 60000
BIG = 48
RULE = ('case = file configuration x generated start database x list of up to 14 operations (add/edit/move/delete/empty/trash/reindex/'
        'history/attachments/metadata/reopen) applied to pykeepass and to the model, whole database compared after every operation; '
        'non-trivial: at least 2 operations took effect')
W = {'reads': 2, 'new_entry': 1, 'hist_set': 1, 'att_name': 1, 'att_ref': 1, 'add_group': 3, 'add_entry': 4, 'set': 4, 'setg': 3, 'icon': 1, 'tags': 2, 'at': 4, 'time': 1, 'exp': 1, 'meta': 1, 'days': 1,
     'prop_set': 2, 'prop_del': 1, 'bin_add': 1, 'bin_del': 1, 'att_add': 1, 'att_del': 1, 'hist_add': 1, 'hist_del': 1, 'mv_e': 3, 'mv_g': 3,
     'append': 1, 'del_e': 2, 'del_g': 2, 'empty': 1, 'trash': 2, 'empty_bin': 1, 'reindex': 2, 'touch': 1, 'uuid': 1, 'reopen': 1}


def strategy(tier):
    return st.fixed_dictionaries({'cfg': gen.cheap_cfg(), 'db': gen.database(maxnodes=7, omit=True), 'style': gen.style,
                                  'ops': ops.oplist(W, min_size=3, max_size=14 if tier == 'quick' else 30)})


def run(case, stt):
    w = ops.World(case)
    w.api()
    w.run(case['ops'])
    w.reopen()
    w.api()
    for o in w.done:
        stt.cls('op_' + o[0])
    stt.cls('v%d' % w.v[0])
    stt.nt(len(w.done) >= 2)
