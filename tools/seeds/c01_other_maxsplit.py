PROPERTY = 'C01'
NEEDS = 'a value that itself contains a colon, in the string view of a mention attribute'
BREAKS = 'reading the mapping view of such a value loses it (the name seems to have no value)'
EDITS = [('udapi/core/coref.py', "namevalue = raw_feature.split(':', 1)", "namevalue = raw_feature.split(':')")]
DEMO = '''
from udapi.core.coref import OtherDualDict
a = OtherDualDict('url:http://x,np:1')
assert a['url'] == 'http://x', a['url']
'''
