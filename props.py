"""What is run for each property. A pair (a, b) means quick / thorough."""
PROPS = {}
def prop(id, bin, feature, stages, **kw):
    PROPS[id] = dict(bin=bin, feature=feature, stages=stages, **kw)
def mc(module, cfg, **kw):
    return dict(kind='mc', module=module, cfg=cfg, **kw)
def tr(module, cfg, **kw):
    return dict(kind='tr', module=module, cfg=cfg, **kw)

prop('C15', 'h_sharing', 'sharing', [
    mc('ShamirMC', ('ShamirQ.cfg', 'ShamirT.cfg'), args=(['p=5'], ['p=7']), cap=(60000, 400000)),
    tr('ShamirTrace', 'ShamirTrace.cfg', n=(60, 800), free=('combine',)),
    tr('ShamirTrace', 'ShamirTrace5.cfg', mode='spread'),
], require=['combine=err', 'combine=[0-9]', 'new=ok', 'new=err', 'rec:recover', 'rec:spread', 'rec:share_bytes'],
   assumptions=['the caller\'s field and group implementations are correct (the harness supplies Z_P)'])
prop('C16', 'h_sharing', 'sharing', [
    mc('VssMC', ('VssFQ.cfg', 'VssFT.cfg'), args=(['p=5'], ['p=7']), cap=(60000, 400000)),
    mc('VssMC', ('VssPQ.cfg', 'VssPT.cfg'), args=(['p=3'], ['p=5']), cap=(60000, 400000)),
    tr('VssTrace', 'VssTrace.cfg', n=(40, 500), args=['what=vss']),
    tr('VssTrace', 'VssTrace.cfg', mode='spread', args=['what=vss']),
], require=['fverify=ok', 'fverify=err', 'pverify=ok', 'pverify=err', 'fbytes=ok', 'fbytes=err', 'pbytes=ok', 'rec:recover', 'rec:spread'],
   assumptions=['group elements are represented by discrete logarithms (Pedersen: with respect to two independent generators)'])

CL = dict(feature='libursa')
for _i in ('C02', 'C03', 'C04'):
    prop(_i, 'h_cl', 'libursa', [
        mc('ClShowMC', ('ClShow%s.cfg' % _i, 'ClShow%sT.cfg' % _i), args=['what=show'], cap=(6000, 60000)),
    ], require=['present=yes', 'present=no'])
for _i in ('C05', 'C06'):
    prop(_i, 'h_cl', 'libursa', [
        mc('RevRegMC', ('RevReg%sDQ.cfg' % _i, 'RevReg%sDT.cfg' % _i), args=['what=reg', 'f=0'], cap=(2500, 30000) if _i == 'C05' else (12000, 150000), strat=('p.mix', 'p.prove', 'v.reg', 'v.key', 'how')),
        mc('RevRegMC', ('RevReg%sOQ.cfg' % _i, 'RevReg%sOT.cfg' % _i), args=['what=reg', 'f=1'], cap=(2500, 30000) if _i == 'C05' else (12000, 150000), strat=('p.mix', 'p.prove', 'v.reg', 'v.key', 'how')),
        tr('RevRegTrace', 'RevRegTraceD.cfg', args=['what=reg', 'f=3'], n=(200, 3000)),
        tr('RevRegTrace', 'RevRegTraceO.cfg', args=['what=reg', 'f=4'], n=(200, 3000), seed_off=1),
    ], require=['present=yes', 'present=no', 'store=ok', 'store=err', 'rec:wupdate', 'rec:update'] if _i == 'C05' else
               ['issue=ok', 'revoke=ok', 'recover=ok', 'update=ok', 'update=err', 'delta=', 'merge=ok', 'merge=err', 'witness=w', 'witness=err', 'wupdate=w', 'wupdate=err'])

prop('C07', 'h_cl', 'libursa', [
    mc('ClTamperMC', ('ClTamperQ.cfg', 'ClTamperT.cfg'), args=['what=tamper'], cap=(5000, 60000), budget=(150, 600)),
    tr('ClTamperTrace', 'ClTamperTrace.cfg', args=['what=tamper'], n=(1200, 20000)),
], require=['tamper=yes', 'tamper=no', 'rec:census', 'rec:garble'])
prop('C08', 'h_cl', 'libursa', [
    mc('ClHistMC', ('ClHistQ.cfg', 'ClHistT.cfg'), args=['what=hist'], cap=(4500, 63000), budget=(100, 700), strat=('edit', 'id', 'nonce')),
    tr('ClHistTrace', 'ClHistTrace.cfg', args=['what=hist'], n=(300, 4000)),
], require=['verify=yes', 'verify=no', 'addsub=ok', 'addcommon=ok', 'rec:verify'])
prop('C01', 'h_cl', 'libursa', [
    mc('ClIssueMC', ('ClIssueQ.cfg', 'ClIssueT.cfg'), args=['what=issue'], cap=(6000, 120000), budget=(100, 700), strat=('edit', 'rev', 'mix')),
], require=['blind=ok', 'blind=err', 'sign=ok', 'sign=err', 'process=ok', 'process=err', 'use=yes'])
prop('C09', 'h_bls', 'libursa', [
    mc('BlsBnMC', ('BlsBnQ.cfg', 'BlsBnT.cfg'), args=['what=bn'], cap=(30000, 200000), budget=(100, 600)),
    tr('BlsBnTrace', 'BlsBnTrace.cfg', args=['what=bn'], n=(1500, 20000)),
], require=['verify=yes', 'verify=no', 'multi=yes', 'multi=no', 'pop=yes', 'pop=no', 'dec=same', 'dec=err', 'seed=same', 'rec:multi'],
   assumptions=['secrets of different keys satisfy no linear relation but the modelled ones'])
prop('C10', 'h_bls', 'libursa', [
    mc('Bls12MC', ('Bls12Q.cfg', 'Bls12T.cfg'), args=['what=normal'], cap=(6000, 40000), budget=(60, 350), strat=('edit', 't', 'g', 'as', 'bal')),
    mc('Bls12MC', ('Bls12Q.cfg', 'Bls12T.cfg'), args=['what=small'], cap=(6000, 40000), budget=(60, 350), strat=('edit', 't', 'g', 'as', 'bal')),
    tr('Bls12Trace', 'Bls12Trace.cfg', args=['what=normal'], n=(400, 6000)),
    tr('Bls12Trace', 'Bls12Trace.cfg', args=['what=small'], n=(400, 6000), seed_off=1),
], require=['verify=yes', 'verify=no', 'nork=yes', 'agg=yes', 'agg=no', 'comb=yes', 'vmulti=yes', 'vmulti=no', 'batch=yes', 'batch=no', 'aggbatch=yes', 'aggbatch=no', 'pop=yes', 'pop=no', 'dec=same', 'scheme=same', 'scheme=err', 'rec:agg', 'rec:vmulti'],
   assumptions=['secrets of different keys satisfy no linear relation but the modelled ones', 'hashes to scalars of different lists of keys are independent'])

prop('C11', 'h_keys', 'libursa', [
    mc('SigsMC', ('SigsEdQ.cfg', 'SigsEdT.cfg'), args=['what=ed'], cap=(15000, 300000), strat=('t', 'e', 'pe', 'len', 'pos')),
    mc('SigsMC', ('SigsSecpQ.cfg', 'SigsSecpT.cfg'), args=['what=secp'], cap=(7000, 150000), strat=('t', 'e', 'pe', 'len', 'pos')),
    tr('SigsTrace', 'SigsEdTrace.cfg', args=['what=ed'], n=(3000, 60000)),
    tr('SigsTrace', 'SigsSecpTrace.cfg', args=['what=secp'], n=(1000, 30000), seed_off=1),
], require=['key==1', 'key==2', 'key=err', 'sign==1', 'sign=err', 'verify=yes', 'verify=no', 'norm=same', 'signer=same', 'signer=err', 'rec:verify'],
   assumptions=['keys are made by the library or are malformed: public keys of low order, which only their maker could use, are not considered'])
prop('C12', 'h_keys', 'libursa', [
    mc('KexMC', ('KexXQ.cfg', 'KexXT.cfg'), args=['what=x'], cap=(25000, 300000), strat=('t', 'se', 'pe', 'len', 'e', 'path')),
    mc('KexMC', ('KexEcdhQ.cfg', 'KexEcdhT.cfg'), args=['what=ecdh'], cap=(25000, 300000), strat=('t', 'se', 'pe', 'len', 'e', 'path')),
    tr('KexTrace', 'KexXTrace.cfg', args=['what=x'], n=(3000, 60000)),
    tr('KexTrace', 'KexEcdhTrace.cfg', args=['what=ecdh'], n=(3000, 60000), seed_off=1),
], require=['key==1', 'key==2', 'key=err', 'secret==1', 'secret==2', 'secret=err', 'conv=same', 'convbad=err', 'long=ok', 'rec:secret'],
   assumptions=['over secp256k1 the secret is the first coordinate of the common point, the same for a public key and its negative'])
prop('C13', 'h_aead', 'libursa', [
    mc('AeadMC', ('AeadQ.cfg', 'AeadT.cfg'), cap=(40000, 400000), strat=('ci', 'via', 'e', 'len', 'm', 'd', 's', 'w')),
    tr('AeadTrace', 'AeadTrace.cfg', n=(4000, 60000)),
], require=['enc==1', 'dec=same', 'dec=err', 'key=ok', 'key=err', 'nonce=ok', 'nonce=err', 'ser=same', 'ser=err', 'type=same', 'io=err', 'rec:dec'])
prop('C14', 'h_split', 'libursa', [
    mc('SplitMC', ('SplitQ.cfg', 'SplitT.cfg'), args=(['p=5'], ['p=7']), cap=(30000, 300000), strat=('f', 's', 'z', 'how', 'e')),
    tr('SplitTrace', 'SplitTrace.cfg', n=(300, 5000)),
    tr('SplitTrace', 'SplitTrace5.cfg', mode='spread'),
], require=['combine=err', 'combine=[0-9]', 'round=same', 'round=nosplit', 'round=other', 'round=err', 'from=err', 'from=[0-9]', 'share=same', 'rec:recover', 'rec:spread'])
prop('C17', 'h_bbs', 'bbsp', [
    mc('BbsMC', ('BbsQ.cfg', 'BbsT.cfg'), args=['what=sig'], cap=(20000, 300000), strat=('e', 'via', 'ty', 'f', 'bl')),
    tr('BbsTrace', 'BbsTrace.cfg', args=['what=sig'], n=(1500, 30000), free=('new',)),
], require=['key=ok', 'key=err', 'sign=ok', 'sign=err', 'verify=yes', 'verify=seq', 'ctx=ok', 'ctx=err', 'bsign=ok', 'bsign=err', 'complete=ok', 'complete=err', 'bytes=same', 'bytes=err', 'rec:complete'])
prop('C18', 'h_bbs', 'bbsp', [
    mc('BbsPokMC', ('BbsPokQ.cfg', 'BbsPokT.cfg'), args=['what=pok'], cap=(7000, 300000), strat=('e', 'lie')),
    tr('BbsPokTrace', 'BbsPokTrace.cfg', args=['what=pok'], n=(600, 30000)),
], require=['request=ok', 'request=err', 'prove=ok', 'prove=err', 'verify=ok', 'verify=err', 'resp=ok', 'resp=err', 'cheat=err', 'link=linked', 'link=apart', 'link=err', 'rec:verify'])
prop('C19', 'h_ps', 'zmixp', [
    mc('PsMC', ('PsQ.cfg', 'PsT.cfg'), cap=(7000, 300000), strat=('e', 'way', 'chal', 'bl')),
    tr('PsTrace', 'PsTrace.cfg', n=(600, 30000), free=('new',)),
], require=['key=ok', 'sign=ok', 'sign=err', 'verify=yes', 'verify=seq', 'bsign=ok', 'bsign=err', 'prove=ok', 'prove=err', 'show=yes', 'show=seq', 'resp=ok', 'resp=err', 'cheat=seq', 'link=linked', 'link=apart', 'rec:show'])
prop('C20', 'h_delg', 'zmixp', [
    mc('ChainMC', ('ChainQ.cfg', 'ChainT.cfg'), cap=(6000, 200000), strat=('e', 'way', 'more', 'par')),
    tr('ChainTrace', 'ChainTrace.cfg', args=['y=4'], n=(400, 20000), free=('new',)),
], require=['extend=ok', 'extend=err', 'verify=yes', 'verify=seq', 'last=yes', 'last=seq', 'issuer=ok', 'issuer=err', 'misfit=err', 'groth=yes', 'groth=seq', 'pok=yes', 'pok=seq', 'rec:verify'])
prop('C21', 'h_delg', 'zmixp', [
    mc('TokenMC', ('TokenQ.cfg', 'TokenT.cfg'), args=['what=token'], cap=(2500, 100000), strat=('e', 'way', 'lie', 'bad', 'par')),
    tr('TokenTrace', 'TokenTrace.cfg', args=['what=token'], n=(120, 5000)),
], require=['commit=ok', 'commit=err', 'respond=ok', 'respond=err', 'check=yes', 'check=seq', 'census=apart', 'rec:check'])
prop('C22', 'h_ve', 'zmixp', [
    mc('VerEncMC', ('VerEncQ.cfg', 'VerEncT.cfg'), args=(['bits=192'], ['bits=320']), cap=(6000, 300000), strat=('e', 'lie', 'chal')),
    tr('VerEncTrace', 'VerEncTrace.cfg', args=['bits=200'], n=(1000, 20000)),
], require=['enc=ok', 'enc=err', 'dec=same', 'dec=other', 'dec=err', 'prove=ok', 'prove=err', 'verify=yes', 'verify=seq', 'open=same', 'twice=apart', 'rec:verify'])
prop('C23', 'h_vc', 'zmixp,bbsp', [
    mc('VcPokMC', ('VcPokQ.cfg', 'VcPokT.cfg'), cap=(12000, 250000), strat=('e', 'pt', 'how', 'via')),
    tr('VcPokTrace', 'VcPokTrace.cfg', n=(1500, 30000)),
], require=['prove=ok', 'prove=err', 'verify=yes', 'verify=no', 'verify=err', 'complete=yes', 'complete=no', 'contrib=yes', 'bytes=same', 'bytes=err', 'bytes=seq', 'index=ok', 'index=err', 'census=distinct', 'rec:verify', 'rec:complete'])
prop('C24', 'h_gad', 'bpp', [
    mc('GadgetMC', ('GadgetQ.cfg', 'GadgetT.cfg'), cap=(8000, 200000), strat=('e', 'how', 'kind', 'gens')),
    tr('GadgetTrace', 'GadgetTrace.cfg', n=(600, 12000), free=('new',)),
    tr('GadgetTrace', 'GadgetTrace.cfg', args=['what=circuit'], n=(60, 2000)),
], require=['prove=done', 'prove=err', 'verify=ok', 'verify=err', 'opens=yes', 'rec:verify', 'rec:circuit'])
prop('C25', 'h_r1cs', 'bpp', [
    mc('CircMC', ('CircQ.cfg', 'CircT.cfg'), cap=(15000, 600000), strat=('k', 't', 'gens', 'com', 'n')),
    tr('CircTrace', 'CircTrace.cfg', n=(1500, 40000), free=('new',)),
], require=['prove=done', 'prove=err', 'verify=ok', 'verify=err', 'ipp=ok', 'ipp=err', 'fresh=yes', 'blank=err', 'rec:verify', 'rec:alg', 'rec:terms'])
prop('C26', 'h_smt', 'bpp', [
    mc('SmtMC', ('SmtQ.cfg', 'SmtT.cfg'), cap=(12000, 300000), strat=('e', 'k', 'd', 'ar', 'keep')),
    mc('SmtMC', ('SmtZkQ.cfg', 'SmtZkT.cfg'), cap=(2000, 100000), strat=('e', 'hide', 'how', 'gens', 'd')),
    mc('HashMC', ('HashQ.cfg', 'HashT.cfg'), cap=(3000, 100000), strat=('f', 'e', 'how', 'gens')),
    tr('SmtTrace', 'SmtTrace.cfg', n=(900, 40000), free=('new',)),
    tr('SmtTrace', 'SmtTrace.cfg', args=['what=tree'], n=(40, 1500)),
    tr('HashTrace', 'HashTrace.cfg', args=['what=proofs'], n=(200, 6000), free=('blank',)),
    tr('HashTrace', 'HashTrace.cfg', args=['what=hash'], n=(60, 2000)),
], require=['new=1', 'update=', 'get=[0-9]', 'get=err', 'verify=yes', 'verify=no', 'wit=yes', 'wit=no', 'wit=err', 'zk=done', 'zk=err', 'zkv=ok', 'zkv=err', 'pwit=yes', 'pwit=no', 'prove=done', 'prove=err', 'pverify=ok', 'pverify=err', 'hash=err', 'rec:zkv', 'rec:circuit', 'rec:pcircuit', 'rec:perm'])
prop('C28', 'h_num', 'nums', [
    mc('BnMC', ('BnQ.cfg', 'BnT.cfg'), cap=(80000, 600000)),
    tr('BnTrace', 'BnTrace.cfg', n=(1500, 40000)),
    mc('BnMC', ('BnQ.cfg', 'BnT.cfg'), cap=(80000, 600000), bin='h_numr', feature='rs:rsbn'),
    tr('BnTrace', 'BnTrace.cfg', n=(600, 20000), bin='h_numr', feature='rs:rsbn'),
    mc('GrpMC', ('GrpQ.cfg', 'GrpT.cfg'), args=([], ['n=12', 'd=6']), cap=(12000, 100000), bin='h_grp'),
    tr('GrpTrace', 'GrpTrace.cfg', n=(400, 10000), bin='h_grp'),
], require=['set=', 'q=', 'parse=', 'divmod=ok', 'rec:law', 'pair=', 'pair2=', 'inv=err', 'read=err'])
_J = dict(bin='h_clj', feature='cjson')
prop('C29', 'h_codec', 'libursa', [
    mc('CodecMC', ('CodecQ.cfg', 'CodecT.cfg'), cap=(60000, 200000), budget=(100, 600)),
    tr('CodecTrace', 'CodecTrace.cfg', n=(3000, 40000), free=('damage',)),
    mc('ClIssueMC', ('ClIssueQ.cfg', 'ClIssueQ.cfg'), args=['what=issue'], cap=(800, 20000), budget=(60, 300), strat=('edit', 'rev', 'mix'), **_J),
    mc('ClShowMC', ('ClShowC03.cfg', 'ClShowC03T.cfg'), args=['what=show'], cap=(400, 8000), **_J),
    mc('ClShowMC', ('ClShowC04.cfg', 'ClShowC04T.cfg'), args=['what=show'], cap=(300, 8000), **_J),
    mc('RevRegMC', ('RevRegC05DQ.cfg', 'RevRegC05DT.cfg'), args=['what=reg', 'f=0'], cap=(500, 8000), strat=('p.mix', 'p.prove', 'v.reg', 'v.key', 'how'), **_J),
    mc('RevRegMC', ('RevRegC06OQ.cfg', 'RevRegC06OT.cfg'), args=['what=reg', 'f=1'], cap=(3000, 30000), strat=('how',), **_J),
], require=['present=yes', 'present=no', 'use=yes', 'witness=w', 'merge=ok', 'send=1', 'again=2', 'damage=seq', 'rec:garble'])
