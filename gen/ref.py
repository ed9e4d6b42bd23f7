"""Reference model: what the tables generated from a numbering plan have to say.

A territory is a dict {attrs, formats, descs}; a format {attrs, leading, format, intl}; a desc
{tag, lengths: [(national, localOnly | None)], pattern, example}. `expect` gives the message as a
dict, or raises Bad where the generator has to refuse the plan."""
import re

WS = re.compile(r'[ \t\n\x0b\f\r]')
NORMAL = [('fixedLine', 'fixed_line'), ('mobile', 'mobile'), ('tollFree', 'toll_free'), ('premiumRate', 'premium_rate'),
          ('sharedCost', 'shared_cost'), ('personalNumber', 'personal_number'), ('voip', 'voip'), ('pager', 'pager'),
          ('uan', 'uan'), ('voicemail', 'voicemail'), ('noInternationalDialling', 'no_international_dialling')]
SHORT = [('standardRate', 'standard_rate'), ('shortCode', 'short_code'), ('carrierSpecific', 'carrier_specific'),
         ('emergency', 'emergency'), ('tollFree', 'toll_free'), ('premiumRate', 'premium_rate'), ('smsServices', 'sms_services')]
BROKEN = {'(', '[', '*1', '1(2', '1)', '(1|)2', '(?:|)', '1(?:2|3|)'}  # patterns of the alphabet that are no good


class Bad(Exception):
    pass


def pattern(p, squeeze=False):
    p = WS.sub('', p) if squeeze else p
    if WS.sub('', p) in BROKEN or '|)' in p:
        raise Bad('pattern ' + p)
    return p


def lengths(s):
    """The grammar of the attribute: item (',' item)*, item = N | '[' N '-' N ']' with min + 2 <= max, no repeats."""
    out = set()
    for item in s.split(','):
        m = re.fullmatch(r'([0-9]+)', item)
        r = re.fullmatch(r'\[([0-9]+)-([0-9]+)\]', item)
        if m:
            new = [int(item)]
        elif r and int(r[2]) - int(r[1]) >= 2:
            new = range(int(r[1]), int(r[2]) + 1)
        else:
            raise Bad('lengths ' + s)
        for n in new:
            if n in out:
                raise Bad('lengths ' + s)
            out.add(n)
    return out


def length_sets(elements):
    all_, local = set(), set()
    for national, loc in elements:
        n = lengths(national)
        if loc is not None:
            l = lengths(loc)
            if n & l:
                raise Bad('local and national')
            local |= l
        all_ |= n
    return all_, local


def rule(text, np):
    return text.replace('$NP', np, 1).replace('$FG', '$1', 1)


def desc(t, tag, general):
    """The description of one type; `general` is None for the general one, whose lengths come later."""
    here = [d for d in t['descs'] if d['tag'] == tag]
    if not here:
        return {'possible_length': [-1]} if general is not None else {}
    if len(here) > 1:
        raise Bad('two ' + tag)
    d = here[0]
    out = {}
    if general is not None:
        all_, local = length_sets(d['lengths'])
        gl, gloc = general.get('possible_length', []), general.get('possible_length_local_only', [])
        if not all_ <= set(gl) or not local - all_ <= set(gl) | set(gloc):
            raise Bad('out of range')
        if sorted(all_) != gl and all_:
            out['possible_length'] = sorted(all_)
        if local - all_:
            out['possible_length_local_only'] = sorted(local - all_)
    if d.get('pattern') is not None:
        out['national_number_pattern'] = pattern(d['pattern'], True)
    if d.get('example') is not None:
        out['example_number'] = d['example']
    return out


def number_format(t, f, np):
    a, ta = f['attrs'], t['attrs']
    out = {'leading_digits_pattern': [pattern(l, True) for l in f['leading']], 'pattern': pattern(a.get('pattern', ''))}
    for name, field in [('nationalPrefixFormattingRule', 'national_prefix_formatting_rule'),
                        ('carrierCodeFormattingRule', 'domestic_carrier_code_formatting_rule')]:
        if name in a:
            out[field] = rule(a[name], np)
        elif ta.get(name):
            out[field] = rule(ta[name], np)
    own = a.get('nationalPrefixOptionalWhenFormatting')
    if (own == 'true') if own is not None else 'nationalPrefixOptionalWhenFormatting' in ta:
        out['national_prefix_optional_when_formatting'] = True
    if len(f['format']) != 1:
        raise Bad('formats')
    out['format'] = f['format'][0]
    if not out['leading_digits_pattern']:
        del out['leading_digits_pattern']
    return out


def expect(t, kind):
    """kind: 'normal', 'short' or 'alternate'."""
    a = t['attrs']
    np = a.get('nationalPrefix', '')
    out = {'id': a.get('id', '')}
    if 'countryCode' in a:
        if not re.fullmatch('[0-9]+', a['countryCode']) or int(a['countryCode']) >= 1 << 31:
            raise Bad('country code')
        out['country_code'] = int(a['countryCode'])
    for name, field, check, squeeze in [
            ('leadingDigits', 'leading_digits', True, False), ('internationalPrefix', 'international_prefix', True, False),
            ('preferredInternationalPrefix', 'preferred_international_prefix', False, False),
            ('nationalPrefixForParsing', 'national_prefix_for_parsing', True, True),
            ('preferredExtnPrefix', 'preferred_extn_prefix', False, False)]:
        if name in a:
            out[field] = pattern(a[name], squeeze) if check else a[name]
    if 'nationalPrefixForParsing' in a and 'nationalPrefixTransformRule' in a:
        out['national_prefix_transform_rule'] = a['nationalPrefixTransformRule']
    if np:
        out['national_prefix'] = np
        out.setdefault('national_prefix_for_parsing', np)
    if 'mainCountryForCode' in a:
        out['main_country_for_code'] = True
    if 'mobileNumberPortableRegion' in a:
        out['mobile_number_portable_region'] = True

    national, intl, explicit = [], [], False
    for f in t['formats']:
        n = number_format(t, f, np)
        national.append(n)
        if len(f['intl']) > 1:
            raise Bad('intl formats')
        if not f['intl']:
            intl.append(dict(n))
            continue
        explicit = True
        if f['intl'][0] != 'NA':
            i = {'pattern': n['pattern'], 'format': f['intl'][0]}
            if 'leading_digits_pattern' in n:
                i['leading_digits_pattern'] = n['leading_digits_pattern']
            intl.append(i)
    if national:
        out['number_format'] = national
    if explicit and intl:
        out['intl_number_format'] = intl
    if kind == 'alternate':
        return out

    general = desc(t, 'generalDesc', None)
    if any(d['lengths'] for d in t['descs'] if d['tag'] == 'generalDesc'):
        raise Bad('lengths at the general description')
    if kind == 'normal':
        gone, counted = False, []
        for d in t['descs']:
            if d['tag'] == 'noInternationalDialling' and not gone:
                gone = True
                continue
            counted += d['lengths']
    else:
        counted = next((d['lengths'] for d in t['descs'] if d['tag'] == 'shortCode'), [])
    all_, local = length_sets(counted)
    if kind == 'short' and local:
        raise Bad('local lengths of short numbers')
    if all_:
        general['possible_length'] = sorted(all_)
    if local - all_:
        general['possible_length_local_only'] = sorted(local - all_)
    out['general_desc'] = general
    for tag, field in NORMAL if kind == 'normal' else SHORT:
        out[field] = desc(t, tag, general)
    if kind == 'normal' and out['mobile'].get('national_number_pattern', '') == out['fixed_line'].get('national_number_pattern', ''):
        out['same_mobile_and_fixed_line_pattern'] = True
    return out


def filtered(m, lite, special):
    """lite: no example numbers below the general description; special: of the types only mobile, no optional fields."""
    if lite and special:
        raise Bad('lite and special')
    m = dict(m)
    for field in {f for _, f in NORMAL + SHORT}:
        if field in m and lite:
            m[field] = {k: v for k, v in m[field].items() if k != 'example_number'}
        elif field in m and special and field != 'mobile':
            m[field] = {}
    if special:
        for field in ['preferred_international_prefix', 'national_prefix', 'preferred_extn_prefix', 'national_prefix_transform_rule',
                      'same_mobile_and_fixed_line_pattern', 'main_country_for_code', 'mobile_number_portable_region']:
            m.pop(field, None)
    return m


# ---- XML ------------------------------------------------------------------------------------

def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def tag(name, attrs, body=''):
    return '<%s%s>%s</%s>' % (name, ''.join(' %s="%s"' % (k, esc(v)) for k, v in attrs.items()), body, name)


def xml_territory(t):
    b = ''
    if t['formats']:
        b += tag('availableFormats', {}, ''.join(
            tag('numberFormat', f['attrs'], ''.join(tag('leadingDigits', {}, esc(x)) for x in f['leading'])
                + ''.join(tag('format', {}, esc(x)) for x in f['format'])
                + ''.join(tag('intlFormat', {}, esc(x)) for x in f['intl'])) for f in t['formats']))
    for d in t['descs']:
        i = ''.join(tag('possibleLengths', {'national': n} if l is None else {'national': n, 'localOnly': l}) for n, l in d['lengths'])
        if d.get('example') is not None:
            i += tag('exampleNumber', {}, esc(d['example']))
        if d.get('pattern') is not None:
            i += tag('nationalNumberPattern', {}, esc(d['pattern']))
        b += tag(d['tag'], {}, i)
    return tag('territory', t['attrs'], b)


def xml(territories):
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<phoneNumberMetadata><territories>\n'
            + '\n'.join(map(xml_territory, territories)) + '\n</territories></phoneNumberMetadata>\n')


def read(path):
    """The territories of a plan on disk."""
    import xml.etree.ElementTree as E
    out = []
    for t in E.parse(path).getroot().iter('territory'):
        formats = [{'attrs': dict(f.attrib), 'leading': [x.text for x in f.iter('leadingDigits')],
                    'format': [x.text for x in f.iter('format')], 'intl': [x.text for x in f.iter('intlFormat')]}
                   for f in t.iter('numberFormat')]
        descs = [{'tag': d.tag, 'lengths': [(l.get('national'), l.get('localOnly')) for l in d.iter('possibleLengths')],
                  'pattern': next((x.text for x in d.iter('nationalNumberPattern')), None),
                  'example': next((x.text for x in d.iter('exampleNumber')), None)}
                 for d in t if d.tag not in ('availableFormats', 'references')]
        out.append({'attrs': dict(t.attrib), 'formats': formats, 'descs': descs})
    return out


# ---- the emitted file -----------------------------------------------------------------------

def rust_array(text, name):
    """The bytes of `pub const NAME: [u8; N] = [..];`, or a message saying what is wrong."""
    text = re.sub(r'/\*.*?\*/', ' ', re.sub(r'//[^\n]*', ' ', text), flags=re.S)
    m = re.fullmatch(r'\s*pub\s+(?:const|static)\s+(\w+)\s*:\s*\[\s*u8\s*;\s*([0-9_]+)\s*\]\s*=\s*\[(.*)\]\s*;\s*', text, flags=re.S)
    if not m:
        return 'no byte array constant'
    if m[1] != name:
        return 'the constant is called ' + m[1]
    items = [x.strip() for x in m[3].split(',')]
    if items and not items[-1]:
        items.pop()
    try:
        data = bytes(int(x.removesuffix('u8').replace('_', ''), 0) for x in items)
    except ValueError:
        return 'not bytes'
    if len(data) != int(m[2].replace('_', '')):
        return 'declared %s elements, has %d' % (m[2], len(data))
    return data


def proto(path):
    text = re.sub(r'//.*', '', open(path).read())
    text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
    return {name: {int(k): (label, ty, field) for label, ty, field, k in
                   re.findall(r'(required|optional|repeated)\s+(\w+)\s+(\w+)\s*=\s*(\d+)', body)}
            for name, body in re.findall(r'message\s+(\w+)\s*\{(.*?)\n\}', text, flags=re.S)}


def decode(data, schema, message):
    """Protobuf wire format -> dict; false booleans are left out (the default)."""
    out, i, n = {}, 0, len(data)

    def varint():
        nonlocal i
        x = s = 0
        while True:
            b = data[i]
            i += 1
            x |= (b & 127) << s
            s += 7
            if b < 128:
                return x
    fields = schema[message]
    while i < n:
        key = varint()
        label, ty, field = fields[key >> 3]
        if key & 7 == 0:
            x = varint()
            if ty == 'bool':
                x = bool(x)
            elif x >= 1 << 63:
                x -= 1 << 64
            values = [x]
        elif key & 7 == 2:
            size = varint()
            if i + size > n:
                raise ValueError('truncated')
            chunk = data[i:i + size]
            i += size
            values = [chunk.decode('utf-8') if ty == 'string' else decode(chunk, schema, ty)]
        else:
            raise ValueError('wire type')
        for x in values:
            if label == 'repeated':
                out.setdefault(field, []).append(x)
            elif x is not False:
                out[field] = x
            else:
                out.pop(field, None)
    return out
