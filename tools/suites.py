"""What each property's check runs."""
import json
import re

FAMILIES = {f: {'driver': 'srv', 'spec': 'BrokerTrace'} for f in
            ('S01', 'S02', 'S03', 'S04', 'S05', 'S06', 'S07', 'S08', 'S09', 'S10', 'S11', 'S12', 'SB', 'SV')}
for f in ('S01', 'S02', 'S04'):
    FAMILIES[f]['shard'] = 25

FAMILIES['SB']['shard'] = 10
FAMILIES['SV']['shard'] = 6

CLI = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'CF', 'CV']
for f in CLI:
    FAMILIES[f] = {'driver': 'cli', 'spec': 'ClientTrace', 'shard': 75}

for f in ('F01', 'F02'):
    FAMILIES[f] = {'driver': 'codec', 'spec': 'CodecTrace', 'shard': 500}
FAMILIES['F03'] = {'driver': 'codec', 'spec': 'HeaderTrace', 'shard': 200}

for f in ('E01', 'EB', 'EV'):
    FAMILIES[f] = {'driver': 'e2e', 'spec': 'EndToEndTrace', 'shard': 150}
FAMILIES['EB']['shard'] = 25
FAMILIES['EV']['shard'] = 15

# scripts generated from the models
for f, nc in {'MQ': (2, 2), 'MA': (1, 2), 'MT': (2, 3), 'MI': (1, 2), 'MX': (2, 2), 'ME': (2, 3)}.items():
    FAMILIES[f] = {'driver': 'srv', 'spec': 'BrokerTrace', 'shard': 100,
                   'scripts': {'module': 'BrokerMC', 'cfg': 'Broker' + f, 'thorough': 'Broker' + f + 'T', 'nc': nc}}
FAMILIES['NH'] = {'driver': 'cli', 'spec': 'ClientTrace', 'shard': 150,
                  'scripts': {'module': 'ClientHand', 'cfg': 'ClientNH', 'thorough': 'ClientNHT'}}
FAMILIES['MH'] = {'driver': 'srv', 'spec': 'BrokerTrace', 'shard': 150,
                  'scripts': {'module': 'Handshake', 'cfg': 'HandshakeMH', 'thorough': 'HandshakeMHT', 'nc': (0, 0)}}
FAMILIES['CV']['shard'] = 12
FAMILIES['CD'] = {'driver': 'cli', 'spec': 'ClientTrace', 'shard': 30}
CLI_MC = ('NU', 'NR', 'NX', 'NE', 'NA', 'NK', 'NM')
for f in CLI_MC:
    FAMILIES[f] = {'driver': 'cli', 'spec': 'ClientTrace', 'shard': 150,
                   'scripts': {'module': 'ClientMC', 'cfg': 'Client' + f, 'thorough': 'Client' + f + 'T', 'printed': True}}


def lit(v):
    """A TLA+ value of strings and sequences as printed by TLC."""
    return json.loads(v.replace('<<', '[').replace('>>', ']'))


def field(v, k):
    return re.search(k + r' \|-> ("[^"]*"|<<.*>>)', v).group(1)


# cases for the real code, from the states of a model
def stream(st):
    d = st['d']
    return {'k': 'stream', 'inp': lit(st['inp']), 'res': lit(field(d, 'res')), 'm': lit(field(d, r'\bm'))}


def roundtrip(st):
    f = st['f']
    return {'k': 'round', 'h': lit(field(f, r'\bh')), 'b': lit(field(f, r'\bb')), 'out': lit(st['out']), 'crlf': lit(st['crlf']),
            'res': '<' + ''.join('(' + k + ',' + v + ')' for k, v in lit(field(f, r'\bh'))) + '!' + lit(field(f, r'\bb')) + '>'}


def operations(st):
    return {'k': 'ops', 'ops': lit(st['ops']), 'shown': lit(st['shown'])}


MODELS = {
    'streams': {'module': 'CodecStreams', 'cfg': 'CodecStreams', 'thorough': 'CodecStreamsT', 'driver': 'codec', 'replay': stream, 'workers': '6'},
    'roundtrip': {'module': 'CodecRound', 'cfg': 'CodecRound', 'thorough': 'CodecRoundT', 'driver': 'codec', 'replay': roundtrip, 'workers': '6'},
    'headers': {'module': 'HeaderOps', 'cfg': 'HeaderOps', 'thorough': 'HeaderOpsT', 'driver': 'codec', 'replay': operations, 'workers': '6'},
}
for f in ('MQ', 'MA', 'MT', 'MI', 'MX', 'ME'):
    MODELS['design ' + f] = {'module': 'BrokerMC', 'cfg': 'Design' + f, 'thorough': 'Design' + f + 'T', 'workers': '4'}
MODELS['design MH'] = {'module': 'Handshake', 'cfg': 'DesignMH', 'thorough': 'DesignMHT', 'workers': '4'}
MODELS['design NH'] = {'module': 'ClientHand', 'cfg': 'DesignNH', 'thorough': 'DesignNHT', 'workers': '4'}
for f in CLI_MC:
    MODELS['design ' + f] = {'module': 'ClientMC', 'cfg': 'Design' + f, 'thorough': 'Design' + f + 'T', 'workers': '4'}

# families of scenarios and how many of each (quick tier)
SUITES = {
    'S01': {'families': {'S01': 400, 'S04': 100, 'S08': 100, 'S09': 100, 'SB': 20, 'SV': 24, 'MQ': 800, 'ME': 400}, 'models': ['design MQ'], 'need': ['msg', 'wfail', 'drop', 'in NACK']},
    'S02': {'families': {'S02': 400, 'S01': 100, 'S05': 100, 'SB': 20, 'SV': 24, 'MQ': 400}, 'models': ['design MQ'], 'need': ['msg', 'in COMMIT']},
    'S03': {'families': {'S03': 500, 'S08': 100, 'SB': 20, 'SV': 12, 'MT': 800}, 'models': ['design MT'], 'need': ['msg']},
    'S04': {'families': {'S04': 500, 'S05': 100, 'MA': 800}, 'models': ['design MA'], 'need': ['in ACK', 'in NACK']},
    'S05': {'families': {'S05': 600, 'SV': 24, 'MX': 800}, 'models': ['design MX'], 'need': ['in COMMIT', 'in ABORT']},
    'S06': {'families': {'S06': 500, 'S09': 100, 'S05': 100, 'SV': 12, 'MX': 300, 'ME': 300}, 'need': ['rcpt', 'err']},
    'S07': {'families': {'S07': 500, 'MH': 3000}, 'models': ['design MH'], 'need': ['cnd', 'err']},
    'S08': {'families': {'S08': 500, 'S03': 100, 'MI': 800, 'MT': 300}, 'models': ['design MI'], 'need': ['in UNSUBSCRIBE']},
    'S09': {'families': {'S09': 500, 'S06': 100, 'S01': 100, 'SB': 40, 'SV': 48, 'ME': 400, 'MX': 300}, 'models': ['design ME'], 'need': ['in BAD', 'drop']},
    'S10': {'families': {'S10': 400}, 'need': ['msg']},
    'S11': {'families': {'S11': 400}, 'need': ['hb', 'hbin', 'close']},
    'S12': {'families': {'S12': 320, 'MQ': 400}, 'models': ['design MQ'], 'need': ['store']},
    'F01': {'families': {'F01': 3000}, 'models': ['roundtrip'], 'need': []},
    'F02': {'families': {'F02': 4000}, 'models': ['streams'], 'need': []},
    'F03': {'families': {'F03': 1200}, 'models': ['headers'], 'need': []},
    'E01': {'families': {'E01': 1500, 'EB': 150, 'EV': 100}, 'need': ['recv', 'call sub', 'call unsub', 'call commit', 'call abort', 'call ack', 'call disc', 'call must']},
    'C01': {'families': {'C01': 1200, 'CD': 60, 'NH': 1500}, 'models': ['design NH'], 'need': ['call connect']},
    'C02': {'families': {'C02': 450, 'CV': 24, 'CF': 150, 'C07': 150, 'C05': 75, 'NR': 600, 'NU': 300}, 'models': ['design NR'], 'need': ['recv', 'call sub']},
    'C03': {'families': {'C03': 450, 'CV': 36, 'CF': 150, 'C05': 150, 'C08': 75, 'NA': 600, 'NX': 200}, 'models': ['design NA'], 'need': ['call send', 'call commit']},
    'C04': {'families': {'C04': 450, 'CV': 36, 'CF': 150, 'C08': 75, 'C09': 75, 'NM': 600}, 'models': ['design NM'], 'need': ['call send', 'wire']},
    'C05': {'families': {'C05': 600, 'CV': 24, 'C11': 150, 'CF': 75, 'C07': 75, 'NE': 600, 'NR': 200}, 'models': ['design NE'], 'need': ['srv', 'sreset', 'seof', 'wfail']},
    'C06': {'families': {'C06': 750, 'C05': 150, 'C11': 75, 'NE': 600, 'NA': 200}, 'models': ['design NE'], 'need': ['call disc', 'call must']},
    'C07': {'families': {'C07': 600, 'C02': 150, 'C11': 75, 'NU': 600, 'NR': 200}, 'models': ['design NU'], 'need': ['call unsub', 'call active']},
    'C08': {'families': {'C08': 600, 'CV': 24, 'C04': 75, 'NX': 600}, 'models': ['design NX'], 'need': ['call begin', 'call commit', 'call abort']},
    'C09': {'families': {'C09': 600, 'C08': 75, 'CF': 75, 'NK': 600}, 'models': ['design NK'], 'need': ['call ack', 'call nack']},
    'C10': {'families': {'C10': 750, 'CF': 75, 'C03': 75}, 'need': ['hb', 'shb']},
    'C11': {'families': {'C11': 450, 'CV': 24, 'C01': 225, 'C05': 150, 'C02': 75, 'CF': 75, 'C07': 75, 'S01': 60, 'S09': 60}, 'need': ['leak', 'call disc']},
}

NOT_APPLICABLE = {}
