"""Which models, replays and traces decide each property."""

LEVELS = {}


def model(module, cfg=None, **kw):
    return dict(kind='model', module=module, cfg=(cfg or module) + '.cfg', **kw)


def trace(module, n, cfg=None, **kw):
    return dict(kind='trace', module=module, cfg=(cfg or module) + '.cfg', n=n, **kw)


XML = ['xmlsrc.go', 'xmlcheck.go']
DOC_Q = [model('MCDocSmall'), model('MCDocWide', limit=400),
         model('MCDocSim', sim=dict(num=150, depth=40), procs=8)]
DOC_T = [model('MCDocSmall', subst={'MaxNodes': '4', 'Prefixes': '{"", "p"}'}, workers=4),
         model('MCDocWide'),
         model('MCDocSim', sim=dict(num=1500, depth=60), procs=8, subst={'MaxNodes': '10', 'MaxDepth': '6'})]


def doc(n):
    return dict(harness=XML, quick=DOC_Q + [trace('TraceXml', n)], thorough=DOC_T + [trace('TraceXml', n * 10, procs=8)])


PLAN = {
    'C01': doc(1200),
    'C02': doc(1200),
    'C03': doc(1200),
    'C04': dict(harness=XML,
                quick=[model('MCEditX', subst={'MaxOps': '2'}, workers=8),
                       model('MCEditX', 'MCEditSim', sim=dict(num=6, depth=10), procs=8)],
                thorough=[model('MCEditX', subst={'MaxOps': '2', 'Vals': '{"q", "nl"}', 'TextsE': '{"amp", "cd"}', 'LocalsE': '{"x", "b"}'}, workers=8),
                          model('MCEditX', 'MCEditSim', sim=dict(num=60, depth=12), procs=8, subst={'MaxOps': '10'})]),
    'C05': doc(1200),
    'C06': dict(harness=XML,
                quick=[model('MCEqualX', subst={'MaxSteps': '2'}), model('MCEqualX', subst={'MaxSteps': '3'}, limit=150)],
                thorough=[model('MCEqualX')]),
    'C07': dict(harness=XML,
                quick=[model('MCScopesX', workers=1), model('MCDocWide', limit=300),
                       model('MCDocSim', sim=dict(num=100, depth=40), procs=8)],
                thorough=[model('MCScopesX', workers=1, subst={'MaxJoins': '4'}, limit=100), model('MCDocWide'),
                          model('MCDocSim', sim=dict(num=1000, depth=60), procs=8)]),
    'C09': dict(harness=XML, quick=[model('MCTok', subst={'MaxToks': '5'}), model('MCDeep')],
                thorough=[model('MCTok', subst={'MaxToks': '6'}), model('MCTok', subst={'MaxToks': '7'}, limit=200), model('MCDeep')]),
    'C10': dict(harness=['dep.go'], quick=[model('DepGraph', subst={'MaxAdds': '4'}), model('DepGraph', subst={'MaxAdds': '5', 'V': '{0, 1, 2}'}),
                                           model('DepGraph', 'DepGraphSim', sim=dict(num=40, depth=14), procs=4)],
                thorough=[model('DepGraph', subst={'MaxAdds': '5'}), model('DepGraph', 'DepGraphSim', sim=dict(num=400, depth=14), procs=8)]),
}
XSD = ['xmlsrc.go', 'xsdsrc.go', 'xsdcheck.go', 'xsdleaf.go']


def cat(cfg, **kw):
    return model('XsdCatalog', cfg, **kw)


def xsdsim(num, procs=8, **subst):
    return cat('XsdSim', sim=dict(num=num, depth=50), procs=procs, **({'subst': subst} if subst else {}))


def xsd(quick, thorough, num=700):
    return dict(harness=XSD, quick=quick + [xsdsim(num)],
                thorough=thorough + [xsdsim(num * 12), xsdsim(num * 6, MaxToks='18', MaxNest='5', MaxAts='6', Goals='{6, 8, 10}')])


PLAN.update({
    'C08': xsd([model('XsdBound'), cat('XsdSimple', workers=1, limit=300), cat('XsdFacet', subst={'MaxFacs': '2'})],
               [model('XsdBound', subst={'MaxFacets': '3'}), cat('XsdSimple', workers=1), cat('XsdFacet', subst={'MaxFacs': '3'})]),
    'C11': dict(harness=XSD, quick=[trace('TraceNorm', 0, source=xsdsim(120), procs=8)],
                thorough=[trace('TraceNorm', 0, source=xsdsim(1500, MaxToks='14', Goals='{3, 5, 8}'), procs=8)]),
    'C12': xsd([model('XsdErr')], [model('XsdErr', subst={'MaxDecls': '4'}, limit=60)]),
    'C13': xsd([cat('XsdOccur', limit=500)], [cat('XsdOccur'), cat('XsdOccur', subst={'Kinds': '{"ct", "gr"}'}, limit=300)]),
    'C14': xsd([cat('XsdGroup')], [cat('XsdGroup', subst={'MaxToks': '3'}), cat('XsdGroup', subst={'Goals': '{2}'}, limit=200)]),
    'C15': xsd([cat('XsdMix'), cat('XsdChain')], [cat('XsdMix'), cat('XsdChain'), cat('XsdMix', subst={'NSs': '{"urn:a", "urn:b"}', 'CrossNS': 'TRUE', 'MaxDocs': '2'}, limit=500)]),
    'C16': dict(harness=XSD, quick=[model('XsdBuiltin')], thorough=[model('XsdBuiltin')]),
    'C17': dict(harness=XSD, quick=[model('XsdImports', limit=100)], thorough=[model('XsdImports')]),
})
GEN = XSD + ['gencheck.go', 'genrun.go']
CLIENT = GEN + ['optcheck.go', 'filecheck.go', 'wsdlgencheck.go']


def gen(cfg, num, **subst):
    return model('MCGen', cfg, sim=dict(num=num, depth=60), procs=8, **({'subst': subst} if subst else {}))


def gens(a, b, c=0, k=10, n=0):
    more = [gen('GenSel', c)] if c else []
    more += [gen('GenNames', n)] if n else []
    thorough = [gen('GenSim', a * k), gen('GenTypes', b * k)] + ([gen('GenNames', n * k)] if n else []) + [gen('GenSim', a * k // 2, MaxDocs='3', MaxToks='16', MaxNest='4', Goals='{5, 7, 9}')]
    return dict(harness=GEN, quick=[gen('GenSim', a), gen('GenTypes', b)] + more, thorough=thorough + ([gen('GenSel', c * k)] if c else []))


PLAN.update({
    'C18': gens(250, 150, 100),
    'C19': gens(300, 200, 120, n=300),
    'C20': gens(400, 250, n=250),
    'C21': gens(160, 140, k=6, n=100),
    'C23': gens(100, 100, 500),
    'C29': dict(harness=GEN,
                quick=[gen('GenSim', 110, Spoiled='6', Insts='2'), gen('GenTypes', 130, Spoiled='8', Insts='2'), gen('GenNames', 50, Spoiled='6', Insts='2')],
                thorough=[gen('GenSim', 700, Spoiled='8'), gen('GenTypes', 900, Spoiled='10'), gen('GenNames', 400, Spoiled='6'),
                          gen('GenSim', 300, Spoiled='8', MaxDocs='3', MaxToks='16', MaxNest='4', Goals='{5, 7, 9}')]),
    'C25': dict(harness=['wsdlcheck.go'],
                quick=[model('WsdlParse', 'WsdlX', subst={'MaxComps': '3'}), model('WsdlParse', 'WsdlX', limit=60), model('WsdlParse', 'WsdlSim', sim=dict(num=400, depth=70), procs=8)],
                thorough=[model('WsdlParse', 'WsdlX'), model('WsdlParse', 'WsdlSim', sim=dict(num=6000, depth=70), procs=8),
                          model('WsdlParse', 'WsdlSim', sim=dict(num=3000, depth=140), procs=8, subst={'MaxComps': '20'})]),
    'C26': dict(harness=CLIENT,
                quick=[model('WsdlClient', 'ClientX', workers=1, limit=150), model('WsdlClient', 'ClientSim', sim=dict(num=100, depth=14), procs=8)],
                thorough=[model('WsdlClient', 'ClientX', workers=1), model('WsdlClient', 'ClientSim', sim=dict(num=1500, depth=14), procs=8),
                          model('WsdlClient', 'ClientSim', sim=dict(num=400, depth=30), procs=8, subst={'MaxSteps': '20'})]),
    'C27': dict(harness=CLIENT,
                quick=[model('WsdlClient', 'CallX'), model('WsdlClient', 'CallSim', sim=dict(num=60, depth=24), procs=8)],
                thorough=[model('WsdlClient', 'CallX'), model('WsdlClient', 'CallX', subst={'MaxCalls': '3', 'ReqHooks': '{"none"}', 'RspHooks': '{"none"}'}, limit=400), model('WsdlClient', 'CallSim', sim=dict(num=300, depth=24), procs=8),
                          model('WsdlClient', 'CallSim', sim=dict(num=100, depth=60), procs=8, subst={'MaxCalls': '20'})]),
    'C28': dict(harness=GEN + ['soapcheck.go'],
                quick=[model('SoapArrays', 'SoapX', workers=1, limit=120), model('SoapArrays', 'SoapSim', sim=dict(num=100, depth=30), procs=8)],
                thorough=[model('SoapArrays', 'SoapX', workers=1), model('SoapArrays', 'SoapSim', sim=dict(num=700, depth=30), procs=8),
                          model('SoapArrays', 'SoapSim', sim=dict(num=150, depth=70), procs=8, subst={'MaxTypes': '12', 'MaxDocs': '14'})]),
    'C24': dict(harness=GEN + ['filecheck.go'],
                quick=[model('GenFiles', 'FilesX'), model('GenFiles', 'FilesSim', sim=dict(num=100, depth=20), procs=8),
                       model('GenFiles', 'FilesSim', sim=dict(num=60, depth=20), procs=8, subst={'Clean': 'TRUE', 'NFiles': '5'})],
                thorough=[model('GenFiles', 'FilesX'), model('GenFiles', 'FilesSim', sim=dict(num=1500, depth=20), procs=8),
                          model('GenFiles', 'FilesSim', sim=dict(num=1500, depth=30), procs=8, subst={'Clean': 'TRUE', 'NFiles': '7'})]),
    'C22': dict(harness=GEN + ['optcheck.go'],
                quick=[model('GenOptions', 'OptX', limit=700), model('GenOptions', 'OptSim', sim=dict(num=60, depth=14), procs=8)],
                thorough=[model('GenOptions', 'OptX'),
                          model('GenOptions', 'OptX', workers=1, subst={'MaxSteps': '4', 'Catalog': '{"nsB", "allow1", "allow2", "replac", "names", "ignA2"}'}),
                          model('GenOptions', 'OptSim', sim=dict(num=700, depth=14), procs=8),
                          model('GenOptions', 'OptSim', sim=dict(num=100, depth=32), procs=8, subst={'MaxSteps': '30', 'Configs': '{"c1", "c2", "c3"}'})]),
})
RAW = GEN + ['rawcheck.go']
PLAN['C30'] = dict(harness=RAW, quick=[model('RawSchema', 'RawX', limit=400), model('RawSchema', 'RawSim', sim=dict(num=500, depth=20), procs=8)],
                   thorough=[model('RawSchema', 'RawX'), model('RawSchema', 'RawSim', sim=dict(num=4000, depth=20), procs=8),
                             model('RawSchema', 'RawSim', sim=dict(num=2000, depth=40), procs=8, subst={'MaxMut': '12'})])
PLAN['C31'] = dict(harness=GEN, quick=[cat('DocX2', limit=150), cat('DocX', subst={'Kinds': '{"ct"}', 'Forms': '{"short"}', 'MaxAts': '0'}),
                                       cat('DocSim', sim=dict(num=800, depth=60), procs=8), gen('DocGen', 150)],
                   thorough=[cat('DocX2'), cat('DocX', limit=100), cat('DocSim', sim=dict(num=8000, depth=60), procs=8), gen('DocGen', 1500)])
PLAN['C32'] = dict(harness=XSD + ['indep.go', 'indepdocs.go'], race=True,
                   quick=[model('Independent', 'IndX'), model('Independent', 'IndX', subst={'MaxCalls': '3'}, limit=6), model('Independent', 'IndSim', sim=dict(num=16, depth=60), procs=8)],
                   thorough=[model('Independent', 'IndX', subst={'MaxCalls': '3'}, limit=60)]
                   + [model('Independent', 'IndX', subst={'MaxCalls': '4', 'Ops': '{"%s"}' % o, 'Inputs': '{"%s"}' % i}, limit=250)
                      for o, i in [('parse', 's1'), ('normalize', 's4'), ('tree', 's2'), ('ast', 's3'), ('source', 's5'), ('wsdl', 'w1'), ('client', 'w2'), ('clientast', 'w1')]]
                   + [model('Independent', 'IndSim', sim=dict(num=100, depth=60), procs=8), model('Independent', 'IndSim', sim=dict(num=20, depth=140), procs=8, subst={'Clients': '{1, 2, 3, 4, 5}', 'MaxCalls': '40'})])
PLAN['C33'] = dict(harness=GEN,
                   quick=[cat('XsdGroup', limit=300), cat('XsdMix', limit=300), cat('XsdSimple', workers=1, limit=60), xsdsim(500), cat('DocSim', sim=dict(num=200, depth=60), procs=8),
                          gen('GenSim', 100), gen('GenNames', 60)],
                   thorough=[cat('XsdGroup', subst={'MaxToks': '3'}), cat('XsdOccur', limit=300), cat('XsdMix'), cat('XsdChain'), cat('XsdSimple', workers=1), xsdsim(6000),
                             xsdsim(3000, MaxToks='18', MaxNest='5', MaxAts='6', Goals='{6, 8, 10}'), cat('DocSim', sim=dict(num=3000, depth=60), procs=8),
                             gen('GenSim', 1200), gen('GenTypes', 800), gen('GenNames', 600)])
PLAN['C34'] = dict(harness=CLIENT + ['cmdcheck.go'],
                   quick=[model('Commands', 'CmdX', limit=2), model('Commands', 'CmdSim', sim=dict(num=120, depth=14), procs=8)],
                   thorough=[model('Commands', 'CmdX', limit=40), model('Commands', 'CmdSim', sim=dict(num=1000, depth=14), procs=8),
                             model('Commands', 'CmdSim', sim=dict(num=300, depth=42), procs=8, subst={'MaxSteps': '40'})])
