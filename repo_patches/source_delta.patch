From 4e6ff35b40fb181fc6f7c950324c52002b84741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 001/113] fix: do not escape the escape character twice when
 writing DSV (Python >= 3.10)

---
 src/csvw/dsv.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 0d050d2..a712373 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -39,6 +39,16 @@ def normalize_encoding(encoding: str) -> str:
     return codecs.lookup(encoding).name
 
 
+@functools.lru_cache(maxsize=None)
+def csv_writer_escapes_escapechar() -> bool:
+    """
+    https://bugs.python.org/issue12178 is fixed in Python >= 3.10
+    """
+    out = io.StringIO(newline='')
+    csv.writer(out, escapechar='\\', doublequote=False).writerow(['\\'])
+    return out.getvalue().strip() == 2 * '\\'
+
+
 class UnicodeWriter:
     """
     Write Unicode data to a csv file.
@@ -75,7 +85,8 @@ class UnicodeWriter:
                 self.kw['dialect'] = dialect
         self.encoding = normalize_encoding(self.encoding)
         self.escapechar = self.kw.get('escapechar')
-        if self.escapechar and self.kw.get('quoting') != csv.QUOTE_NONE:
+        if self.escapechar and self.kw.get('quoting') != csv.QUOTE_NONE \
+                and not csv_writer_escapes_escapechar():
             # work around https://bugs.python.org/issue12178
             # (csv.writer doesn't escape escapechar while csv.reader expects it)
             def _escapedoubled(row,
-- 
2.43.0


From 16b79ab158d15bb0c53179fc9edc5df86b1f197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 002/113] fix: encode in-memory DSV content with the encoding
 of the writer

---
 src/csvw/dsv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index a712373..5942caf 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -122,7 +122,7 @@ class UnicodeWriter:
         if hasattr(self.f, 'seek'):
             self.f.seek(0)
         if hasattr(self.f, 'read'):
-            return self.f.read().encode('utf-8')
+            return self.f.read().encode(self.encoding)
 
     def __exit__(self, type, value, traceback):
         if self._close:
-- 
2.43.0


From 26014bdb70b9fb2177a8fa5edea66427ba5605cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 003/113] fix: run converters and validators in Dialect.updated

---
 src/csvw/dsv_dialects.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/csvw/dsv_dialects.py b/src/csvw/dsv_dialects.py
index e35f391..f5b423c 100644
--- a/src/csvw/dsv_dialects.py
+++ b/src/csvw/dsv_dialects.py
@@ -116,10 +116,8 @@ class Dialect(object):
             (str, bool), 'false')('{0}'.format(v).lower() if isinstance(v, bool) else v))
 
     def updated(self, **kw):
-        res = self.__class__(**attr.asdict(self))
-        for k, v in kw.items():
-            setattr(res, k, v)
-        return res
+        # Note: Values must be passed to the initializer for converters and validators to be run.
+        return self.__class__(**dict(attr.asdict(self), **kw))
 
     @functools.cached_property
     def escape_character(self):
-- 
2.43.0


From 3665087735d5f61e412ba90beecb7c7f67460b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 004/113] fix: normalize_name must not return Python keywords

---
 src/csvw/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index affbfdf..c6e12e3 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -77,9 +77,9 @@ def normalize_name(s):
     '_1'
     """
     s = s.replace('-', '_').replace('.', '_').replace(' ', '_')
+    s = '_'.join(slug(ss, lowercase=False) for ss in s.split('_'))
     if s in keyword.kwlist:
         return s + '_'
-    s = '_'.join(slug(ss, lowercase=False) for ss in s.split('_'))
     if not s:
         s = '_'
     if s[0] not in string.ascii_letters + '_':
-- 
2.43.0


From 365f9995c4dc58f1b6206f1b6132b2ea0065b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 005/113] fix: slug fails for strings with control characters

---
 src/csvw/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index c6e12e3..fcfa328 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -101,6 +101,7 @@ def slug(s, remove_whitespace=True, lowercase=True):
         res = res.replace(c, '')
     res = re.sub(r'\s+', '' if remove_whitespace else ' ', res)
     res = res.encode('ascii', 'ignore').decode('ascii')
+    res = re.sub(r'[^ A-Za-z0-9]', '', res)  # control characters
     assert re.match('[ A-Za-z0-9]*$', res)
     return res
 
-- 
2.43.0


From dfb94ae4ad5d3cdb28579b02af4f5f00c00d9610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 006/113] fix: read integers and decimals of more than 28
 digits without rounding

---
 src/csvw/datatypes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index ad17973..bd0f822 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -544,7 +544,7 @@ class decimal(anyAtomicType):
             raise ValueError(
                 'Invalid value "{}" for decimal with pattern "{}"'.format(v, pattern))
 
-        factor = 1
+        shift = 0
         if isinstance(v, str):
             if v in decimal._special:
                 warnings.warn('Invalid special value for decimal')
@@ -553,14 +553,16 @@ class decimal(anyAtomicType):
                 v = v.replace(groupChar, '')
             if decimalChar and decimalChar != '.':
                 v = v.replace(decimalChar, '.')
-            for c, factor in [('%', _decimal.Decimal('0.01')), ('‰', _decimal.Decimal('0.001'))]:
+            for c, shift in [('%', -2), ('‰', -3)]:
                 if c in v:
                     v = v.replace(c, '')
                     break
             else:
-                factor = 1
+                shift = 0
         try:
-            return _decimal.Decimal(v) * factor
+            # Note: Arithmetics with `Decimal` would round to the precision of the current context.
+            sign, digits, exp = _decimal.Decimal(v).as_tuple()
+            return _decimal.Decimal((sign, digits, exp + shift if shift else exp))
         except (TypeError, _decimal.InvalidOperation):
             decimal.value_error(v)
 
-- 
2.43.0


From 9b84342a2a6c363e42b5328ba0b1334548f2c5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 007/113] fix: reject strings outside of the lexical space of
 decimal and integer types

Underscores between digits, non-ASCII digits or 'Infinity' were accepted, and infinite values raised
OverflowError for integer types.
---
 src/csvw/datatypes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index bd0f822..a08db7b 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -519,6 +519,7 @@ class decimal(anyAtomicType):
         'NaN': 'NaN',
     }
     _reverse_special = {v: k for k, v in _special.items()}
+    _lexical = re.compile(r'\s*[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)\s*')
 
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
@@ -559,6 +560,9 @@ class decimal(anyAtomicType):
                     break
             else:
                 shift = 0
+            if not decimal._lexical.fullmatch(v):
+                # `Decimal` also accepts underscores, non-ASCII digits, "Infinity", etc.
+                decimal.value_error(v)
         try:
             # Note: Arithmetics with `Decimal` would round to the precision of the current context.
             sign, digits, exp = _decimal.Decimal(v).as_tuple()
@@ -616,6 +620,8 @@ class integer(decimal):
     @classmethod
     def to_python(cls, v, **kw):
         res = decimal.to_python(v, **kw)
+        if not res.is_finite():
+            cls.value_error(v)
         numerator, denominator = res.as_integer_ratio()
         if denominator == 1:
             if cls.range and not (cls.range[0] <= numerator <= cls.range[1]):
-- 
2.43.0


From 12b2f5db72d4d9f45e4922b3ba920ce363fcca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 008/113] fix: apply numeric formats consistently when reading
 and writing numbers

- float types ignored pattern, decimalChar and groupChar when writing, and the latter two when reading,
- custom group and decimal characters were swapped one after the other (thus mixed up), or mishandled
  if just one of them was given,
- numbers with leading zeros required by the pattern and negative numbers with trailing minus or
  for patterns with '+' sign could not be read back,
- numbers with more than 28 digits could not be formatted with a pattern,
- separators which are not declared, and decimal points for integer types were accepted,
- Decimals in scientific notation were written with wrong magnitude.
---
 src/csvw/datatypes.py | 158 ++++++++++++++++++++++++------------------
 1 file changed, 92 insertions(+), 66 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index a08db7b..5ab3be0 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -530,39 +530,19 @@ class decimal(anyAtomicType):
 
     @staticmethod
     def to_python(v, pattern=None, decimalChar=None, groupChar=None):
-        if isinstance(v, str) and 'e' in v.lower():
-            raise ValueError('Invalid value for decimal')
-
-        if isinstance(v, str) and re.search('{0}{0}+'.format(re.escape(groupChar or ',')), v):
-            raise ValueError('Invalid value for decimal')
-
-        if groupChar is None and pattern and ',' in pattern:
-            groupChar = ','
-        if decimalChar is None and pattern and '.' in pattern:
-            decimalChar = '.'
-        if pattern and not NumberPattern(pattern).is_valid(
-                v.replace(groupChar or ',', ',').replace(decimalChar or '.', '.')):
-            raise ValueError(
-                'Invalid value "{}" for decimal with pattern "{}"'.format(v, pattern))
-
         shift = 0
         if isinstance(v, str):
+            if 'e' in v.lower():
+                raise ValueError('Invalid value for decimal')
             if v in decimal._special:
                 warnings.warn('Invalid special value for decimal')
                 return _decimal.Decimal(decimal._special[v])
-            if groupChar:
-                v = v.replace(groupChar, '')
-            if decimalChar and decimalChar != '.':
-                v = v.replace(decimalChar, '.')
-            for c, shift in [('%', -2), ('‰', -3)]:
-                if c in v:
-                    v = v.replace(c, '')
-                    break
-            else:
-                shift = 0
+            v, shift = parse_number(v, pattern, decimalChar, groupChar)
             if not decimal._lexical.fullmatch(v):
                 # `Decimal` also accepts underscores, non-ASCII digits, "Infinity", etc.
                 decimal.value_error(v)
+        elif isinstance(v, float):
+            v = repr(v)  # The shortest decimal representing the number.
         try:
             # Note: Arithmetics with `Decimal` would round to the precision of the current context.
             sign, digits, exp = _decimal.Decimal(v).as_tuple()
@@ -576,12 +556,14 @@ class decimal(anyAtomicType):
             return decimal._reverse_special['{}'.format(v)]
 
         if pattern:
-            v = babel.numbers.format_decimal(v, pattern, 'en')
-            if decimalChar:
-                v = v.replace('.', decimalChar)
-            if groupChar:
-                v = v.replace(',', groupChar)
-            return v
+            return format_number(v, pattern, decimalChar, groupChar)
+
+        if isinstance(v, float):
+            v = _decimal.Decimal(repr(v))
+        if isinstance(v, _decimal.Decimal):
+            # No scientific notation!
+            v = ('{:f}' if groupChar is None else '{:,f}').format(v)
+            return replace_separators(v, {'.': decimalChar, ',': groupChar})
 
         fmt = '{}' if groupChar is None else '{:,}'
         try:
@@ -598,15 +580,7 @@ class decimal(anyAtomicType):
             return '{}{}{}.0'.format(sign, digits, zero_padding) if exp > 0 else (
                 '{}0.{}{}'.format(sign, zero_padding, digits))
 
-        if groupChar or decimalChar:
-            def repl(m):
-                if m.group('c') == ',':
-                    return groupChar
-                if m.group('c') == '.':
-                    return decimalChar
-            r = '(?P<c>[{}])'.format(re.escape((decimalChar or '') + (groupChar or '')))
-            v = re.sub(r, repl, v)
-        return v
+        return replace_separators(v, {'.': decimalChar, ',': groupChar})
 
 
 @register
@@ -619,6 +593,10 @@ class integer(decimal):
 
     @classmethod
     def to_python(cls, v, **kw):
+        decimalChar = kw.get('decimalChar') or '.'
+        if isinstance(v, str) and decimalChar in v and decimalChar != kw.get('groupChar') \
+                and decimalChar not in (kw.get('pattern') or ''):
+            cls.value_error(v)  # The decimal point is forbidden.
         res = decimal.to_python(v, **kw)
         if not res.is_finite():
             cls.value_error(v)
@@ -839,19 +817,26 @@ class _float(anyAtomicType):
         return {}
 
     @staticmethod
-    def to_python(v, pattern=None, **kw):
-        if pattern and not NumberPattern(pattern).is_valid(v):
-            raise ValueError(
-                'Invalid value "{}" for number with pattern "{}"'.format(v, pattern))
-
+    def to_python(v, pattern=None, decimalChar=None, groupChar=None):
+        shift = 0
+        if isinstance(v, str) and v not in decimal._special:
+            v, shift = parse_number(v, pattern, decimalChar, groupChar)
+            if '_' in v or not v.isascii():
+                # Accepted by `float`, but not a number in the sense of XML Schema.
+                _float.value_error(v)
         try:
-            return float(v)
-        except (TypeError, ValueError):
+            return float(_decimal.Decimal(v).scaleb(shift)) if shift else float(v)
+        except (TypeError, ValueError, _decimal.InvalidOperation):
             _float.value_error(v)
 
     @staticmethod
-    def to_string(v, **kw):
-        return '{}'.format(v)
+    def to_string(v, pattern=None, decimalChar=None, groupChar=None):
+        if isinstance(v, float) and not math.isfinite(v):
+            return 'NaN' if math.isnan(v) else ('INF' if v > 0 else '-INF')
+        if pattern:
+            return format_number(v, pattern, decimalChar, groupChar)
+        return replace_separators(
+            ('{}' if groupChar is None else '{:,}').format(v), {'.': decimalChar, ',': groupChar})
 
 
 @register
@@ -1166,6 +1151,60 @@ def dt_format_and_regex(fmt, no_date=False):
     return {'regex': re.compile(regex), 'fmt': format, 'tz_marker': tz_marker, 'pattern': pattern}
 
 
+def replace_separators(s, separators):
+    """
+    Replace decimal and group separators simultaneously.
+
+    :param separators: Mapping of separators to replacements, falsy values meaning no replacement.
+    """
+    separators = {k: v for k, v in separators.items() if k and v and k != v}
+    if not separators:
+        return s
+    return re.sub('|'.join(re.escape(k) for k in separators), lambda m: separators[m.group()], s)
+
+
+def parse_number(s, pattern=None, decimalChar=None, groupChar=None):
+    """
+    Turn a formatted number into a string with "." as decimal and without group separators.
+
+    :return: Pair (number, shift), where shift is the (negative) power of 10 the number must be \
+    scaled by to account for percent and per-mille signs.
+
+    .. seealso:: https://www.w3.org/TR/tabular-data-model/#formats-for-numeric-types
+    """
+    decimalChar = decimalChar or '.'
+    if groupChar is None and pattern and ',' in pattern:
+        groupChar = ','
+    if groupChar and groupChar * 2 in s:
+        raise ValueError('Invalid number "{}": consecutive group separators'.format(s))
+    for c in '.,':
+        if c in s and c not in (decimalChar, groupChar):
+            raise ValueError('Invalid number "{}": undeclared separator "{}"'.format(s, c))
+    number = replace_separators(s, {groupChar: ',', decimalChar: '.'})
+    if pattern:
+        pattern = NumberPattern(pattern)
+        if pattern.negative.endswith('-') and number.endswith('-'):
+            number = '-' + number[:-1]
+        if not pattern.is_valid(number):
+            raise ValueError(
+                'Invalid value "{}" for number with pattern "{}"'.format(s, pattern.positive))
+    number = number.replace(',', '')
+    for c, shift in [('%', -2), ('‰', -3)]:
+        if c in number:
+            return number.replace(c, '', 1), shift
+    return number, 0
+
+
+def format_number(v, pattern, decimalChar=None, groupChar=None):
+    np = NumberPattern(pattern)
+    _, digits, exp = _decimal.Decimal('{}'.format(v)).as_tuple()
+    with _decimal.localcontext() as ctx:
+        # Rounding is only done as required by the pattern.
+        ctx.prec = max(ctx.prec, len(digits) + abs(exp) + len(pattern))
+        v = babel.numbers.format_decimal(v, '{};{}'.format(np.positive, np.negative), 'en')
+    return replace_separators(v, {'.': decimalChar, ',': groupChar})
+
+
 class NumberPattern:
     """
     Implementations MUST recognise number format patterns containing the symbols 0, #, the specified
@@ -1242,24 +1281,11 @@ class NumberPattern:
         def digits(ss):
             return [c for c in ss if c not in '.,E+-%‰']
 
-        integral_part, _, decimal_part = s.partition('.')
-        decimal_part, _, exponent = decimal_part.lower().partition('e')
+        number, _, exponent = s.lower().partition('e')
+        integral_part, _, decimal_part = number.partition('.')
         groups = integral_part.split(',')
-        significant, leadingzero, skip = [], False, True
-        for c in ''.join(groups):
-            if c in ['+', '-', '%',  # fixme: permil
-                     ]:
-                continue
-            if c == '0' and skip:
-                leadingzero = True
-                continue
-            if c != '0':
-                skip = False
-            significant.append(c)
-        if not significant and leadingzero:
-            significant = ['0']
         if self.min_digits_before_decimal_point and \
-                len(significant) < self.min_digits_before_decimal_point:
+                len(digits(integral_part)) < self.min_digits_before_decimal_point:
             return False
         if self.primary_grouping_size and groups:
             if len(digits(groups[-1])) > self.primary_grouping_size:
@@ -1282,7 +1308,7 @@ class NumberPattern:
                 return False
 
         if self.exponent_digits and 'e' in s.lower():
-            if len(digits(s.lower().split('e')[-1])) > self.exponent_digits:
+            if len(digits(exponent)) > self.exponent_digits:
                 return False
 
         return True
-- 
2.43.0


From 9c6345d75abb6e5a4ebfe38e7db0507568dcb7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 009/113] fix: recognize contradictory datatype constraints if
 bounds are 0 or minimum and maximum

---
 src/csvw/metadata.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4d485e2..73c8f2a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -579,8 +579,8 @@ class Datatype(DescriptionBase):
         if not isinstance(
                 self.basetype(),
                 tuple((DATATYPES[name] for name in ['decimal', 'float', 'datetime', 'duration']))):
-            if any([getattr(self, at) for at in
-                    'minimum maximum minExclusive maxExclusive minInclusive maxInclusive'.split()]):
+            if any(getattr(self, at) is not None for at in
+                   'minimum maximum minExclusive maxExclusive minInclusive maxInclusive'.split()):
                 raise ValueError(
                     'Applications MUST raise an error if minimum, minInclusive, maximum, '
                     'maxInclusive, minExclusive, or maxExclusive are specified and the base '
@@ -589,23 +589,30 @@ class Datatype(DescriptionBase):
         if not isinstance(
                 self.basetype(),
                 (DATATYPES['string'], DATATYPES['base64Binary'], DATATYPES['hexBinary'])):
-            if self.length or self.minLength or self.maxLength:
+            if any(at is not None for at in (self.length, self.minLength, self.maxLength)):
                 raise ValueError(
                     'Applications MUST raise an error if length, maxLength, or minLength are '
                     'specified and the base datatype is not string or one of its subtypes, or a '
                     'binary type.')
 
-        if (self.minInclusive and self.minExclusive) or (self.maxInclusive and self.maxExclusive):
+        # Note: `minimum` and `maximum` are equivalent to `minInclusive` and `maxInclusive`.
+        min_inclusive = [v for v in (self.minimum, self.minInclusive) if v is not None]
+        max_inclusive = [v for v in (self.maximum, self.maxInclusive) if v is not None]
+
+        if (min_inclusive and self.minExclusive is not None) or \
+                (max_inclusive and self.maxExclusive is not None):
             raise ValueError(
                 'Applications MUST raise an error if both minInclusive and minExclusive are '
                 'specified, or if both maxInclusive and maxExclusive are specified.')
 
-        if (self.minInclusive and self.maxExclusive and self.maxExclusive <= self.minInclusive) or \
-                (self.minInclusive and self.maxInclusive and self.maxInclusive < self.minInclusive):
+        if any(upper < lower for lower in min_inclusive for upper in max_inclusive) or (
+                self.maxExclusive is not None and
+                any(self.maxExclusive <= lower for lower in min_inclusive)):
             raise ValueError('')
 
-        if (self.minExclusive and self.maxExclusive and self.maxExclusive <= self.minExclusive) or (
-                self.minExclusive and self.maxInclusive and self.maxInclusive <= self.minExclusive):
+        if self.minExclusive is not None and (
+                any(upper <= self.minExclusive for upper in max_inclusive) or
+                (self.maxExclusive is not None and self.maxExclusive <= self.minExclusive)):
             raise ValueError('')
 
         if 'id' in self.at_props and any(
-- 
2.43.0


From b4ec855832e992e3f33dd177d474a59cf8db3e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 010/113] fix: enforce bounds of dates with and without
 timezone, times and durations

Comparing values with and without timezone raised TypeError, bounds of times were only valid on the
day the datatype was created, bounds of durations and the length of anyURIs were not checked.
---
 src/csvw/datatypes.py | 29 +++++++++++++++++++++++++++++
 src/csvw/metadata.py  | 41 ++++++++++++++++++++++++-----------------
 2 files changed, 53 insertions(+), 17 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 5ab3be0..6af23e7 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -81,6 +81,13 @@ class anyAtomicType:
     def to_string(v: object, **kw) -> str:
         return '{}'.format(v)
 
+    @staticmethod
+    def sort_key(v: object) -> object:
+        """
+        Values of datatypes with `minmax == True` can be compared via their sort key.
+        """
+        return v
+
 
 @register
 class string(anyAtomicType):
@@ -350,6 +357,13 @@ class dateTime(anyAtomicType):
             return babel.dates.format_datetime(v, tzinfo=v.tzinfo, format=pattern)
         return v.isoformat()
 
+    @staticmethod
+    def sort_key(v):
+        # Values with and without timezone can only be compared assuming a timezone for the latter.
+        if isinstance(v, datetime.datetime) and v.utcoffset() is None:
+            return v.replace(tzinfo=datetime.timezone.utc)
+        return v
+
 
 @register
 class _dateTime(dateTime):
@@ -427,6 +441,11 @@ class _time(dateTime):
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         return babel.dates.format_time(v, tzinfo=v.tzinfo, format=pattern)
 
+    @staticmethod
+    def sort_key(v):
+        # The date is just the day when the value was read.
+        return dateTime.sort_key(v.replace(year=1972, month=12, day=31))
+
 
 @register
 class duration(anyAtomicType):
@@ -443,6 +462,7 @@ class duration(anyAtomicType):
 
     """
     name = 'duration'
+    minmax = True
     example = 'P3Y6M4DT12H30M5S'
 
     @staticmethod
@@ -459,6 +479,15 @@ class duration(anyAtomicType):
     def to_string(v, format=None, **kw):
         return isodate.duration_isoformat(v)
 
+    @staticmethod
+    def sort_key(v):
+        months = 0
+        if isinstance(v, isodate.Duration):
+            # The order of durations with months is partial. Using the average length of a month
+            # (in the Gregorian calendar) is compatible with it.
+            v, months = v.tdelta, v.years * 12 + v.months
+        return v // datetime.timedelta(microseconds=1) + int(months * 2629746 * 10 ** 6)
+
 
 @register
 class dayTimeDuration(duration):
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 73c8f2a..ba32f20 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -596,23 +596,26 @@ class Datatype(DescriptionBase):
                     'binary type.')
 
         # Note: `minimum` and `maximum` are equivalent to `minInclusive` and `maxInclusive`.
-        min_inclusive = [v for v in (self.minimum, self.minInclusive) if v is not None]
-        max_inclusive = [v for v in (self.maximum, self.maxInclusive) if v is not None]
-
-        if (min_inclusive and self.minExclusive is not None) or \
-                (max_inclusive and self.maxExclusive is not None):
+        key = self.basetype.sort_key
+        min_inclusive = [key(v) for v in (self.minimum, self.minInclusive) if v is not None]
+        max_inclusive = [key(v) for v in (self.maximum, self.maxInclusive) if v is not None]
+        min_exclusive = None if self.minExclusive is None else key(self.minExclusive)
+        max_exclusive = None if self.maxExclusive is None else key(self.maxExclusive)
+
+        if (min_inclusive and min_exclusive is not None) or \
+                (max_inclusive and max_exclusive is not None):
             raise ValueError(
                 'Applications MUST raise an error if both minInclusive and minExclusive are '
                 'specified, or if both maxInclusive and maxExclusive are specified.')
 
         if any(upper < lower for lower in min_inclusive for upper in max_inclusive) or (
-                self.maxExclusive is not None and
-                any(self.maxExclusive <= lower for lower in min_inclusive)):
+                max_exclusive is not None and
+                any(max_exclusive <= lower for lower in min_inclusive)):
             raise ValueError('')
 
-        if self.minExclusive is not None and (
-                any(upper <= self.minExclusive for upper in max_inclusive) or
-                (self.maxExclusive is not None and self.maxExclusive <= self.minExclusive)):
+        if min_exclusive is not None and (
+                any(upper <= min_exclusive for upper in max_inclusive) or
+                (max_exclusive is not None and max_exclusive <= min_exclusive)):
             raise ValueError('')
 
         if 'id' in self.at_props and any(
@@ -656,7 +659,10 @@ class Datatype(DescriptionBase):
         if v is None:
             return v
         try:
-            l_ = len(v or '')
+            if isinstance(self.basetype(), DATATYPES['anyURI']):
+                l_ = len(v if isinstance(v, str) else self.formatted(v))
+            else:
+                l_ = len(v or '')
             if self.length is not None and l_ != self.length:
                 raise ValueError('value must have length {}'.format(self.length))
             if self.minLength is not None and l_ < self.minLength:
@@ -666,17 +672,18 @@ class Datatype(DescriptionBase):
         except TypeError:
             pass
         if self.basetype.minmax:
-            if self.minimum is not None and v < self.minimum:
+            key = self.basetype.sort_key
+            if self.minimum is not None and key(v) < key(self.minimum):
                 raise ValueError('value must be >= {}'.format(self.minimum))
-            if self.minInclusive is not None and v < self.minInclusive:
+            if self.minInclusive is not None and key(v) < key(self.minInclusive):
                 raise ValueError('value must be >= {}'.format(self.minInclusive))
-            if self.minExclusive is not None and v <= self.minExclusive:
+            if self.minExclusive is not None and key(v) <= key(self.minExclusive):
                 raise ValueError('value must be > {}'.format(self.minExclusive))
-            if self.maximum is not None and v > self.maximum:
+            if self.maximum is not None and key(v) > key(self.maximum):
                 raise ValueError('value must be <= {}'.format(self.maximum))
-            if self.maxInclusive is not None and v > self.maxInclusive:
+            if self.maxInclusive is not None and key(v) > key(self.maxInclusive):
                 raise ValueError('value must be <= {}'.format(self.maxInclusive))
-            if self.maxExclusive is not None and v >= self.maxExclusive:
+            if self.maxExclusive is not None and key(v) >= key(self.maxExclusive):
                 raise ValueError('value must be < {}'.format(self.maxExclusive))
         return v
 
-- 
2.43.0


From dd87dc736b84f1e8e3fed77d9da4ab925512e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 011/113] fix: regular expressions as datatype format must
 match the whole value

A trailing newline was accepted, numbered groups were shifted, normalizedString ignored the format,
formats of durations only had to match a prefix.
---
 src/csvw/datatypes.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 6af23e7..dc7e5e4 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -102,17 +102,16 @@ class string(anyAtomicType):
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
         if datatype.format:
-            # We wrap a regex specified as `format` property into a group and add `$` to
-            # make sure the whole string is matched when validating.
+            # Note: The whole string must be matched when validating.
             try:
-                return {'regex': re.compile(r'({})$'.format(datatype.format))}
+                return {'regex': re.compile('{}'.format(datatype.format))}
             except re.error:
                 warnings.warn('Invalid regex pattern as datatype format')
         return {}
 
     @staticmethod
     def to_python(v, regex=None):
-        if regex and not regex.match(v):
+        if regex and not regex.fullmatch(v):
             string.value_error(v)
         return v
 
@@ -173,7 +172,7 @@ class NMTOKEN(string):
     @staticmethod
     def to_python(v, regex=None):
         v = string.to_python(v, regex=regex)
-        if not re.fullmatch(r'[\w.:-]*', v):
+        if not re.fullmatch(r'[\w.:-]+', v):
             NMTOKEN.value_error(v)
         return v
 
@@ -467,13 +466,22 @@ class duration(anyAtomicType):
 
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
-        return {'format': datatype.format}
+        if datatype.format:
+            try:
+                re.compile('{}'.format(datatype.format))
+                return {'format': datatype.format}
+            except re.error:
+                warnings.warn('Invalid regex pattern as datatype format')
+        return {}
 
     @staticmethod
     def to_python(v, format=None, **kw):
-        if format and not re.match(format, v):
+        if format and not re.fullmatch(format, v):
             raise ValueError
-        return isodate.parse_duration(v)
+        try:
+            return isodate.parse_duration(v)
+        except OverflowError:
+            duration.value_error(v)
 
     @staticmethod
     def to_string(v, format=None, **kw):
@@ -908,7 +916,7 @@ class normalizedString(string):
             for c in '\r\n\t':
                 v = v.replace(c, ' ')
             v = v.strip()
-        return string.to_python(v, '')
+        return string.to_python(v, regex=regex)
 
 
 @register
-- 
2.43.0


From e3cd10633dedcdba0ef5006b0cb9f085c3abca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 012/113] fix: read and write dates and times according to
 their format

- timezones: lost for date (always written as Z) and for default time formats, off by one hour when
  writing negative offsets with minutes (Babel), and lost for date formats with timezone marker,
- fractions of seconds were lost for times in default format,
- trailing garbage, missing timezones and more fractional digits than allowed were accepted.
---
 src/csvw/datatypes.py | 143 +++++++++++++++++++++---------------------
 1 file changed, 72 insertions(+), 71 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index dc7e5e4..ea82571 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -24,7 +24,6 @@ import isodate
 import rfc3986
 import dateutil.parser
 import babel.numbers
-import babel.dates
 import jsonschema
 
 if typing.TYPE_CHECKING:  # pragma: no cover
@@ -286,21 +285,6 @@ class boolean(anyAtomicType):
         return (true if v else false)[0]
 
 
-def with_tz(v, func, args, kw):
-    tz_pattern = re.compile('(Z|[+-][0-2][0-9]:[0-5][0-9])$')
-    tz = tz_pattern.search(v)
-    if tz:
-        v = v[:tz.start()]
-        tz = tz.groups()[0]
-    res = func(v, *args, **kw)
-    if tz:
-        dt = dateutil.parser.parse('{}{}'.format(datetime.datetime.now(), tz))
-        res = datetime.datetime(
-            res.year, res.month, res.day, res.hour, res.minute, res.second, res.microsecond,
-            dt.tzinfo)
-    return res
-
-
 @register
 class dateTime(anyAtomicType):
     """
@@ -315,46 +299,40 @@ class dateTime(anyAtomicType):
         return dt_format_and_regex(datatype.format)
 
     @staticmethod
-    def _parse(v, cls, regex, tz_marker=None):
-        v = v.strip()
-        try:
-            comps = regex.match(v).groupdict()
-        except AttributeError:  # pragma: no cover
+    def _parse(v, regex):
+        match = regex.fullmatch(v.strip()) if regex else None
+        if not match:
             dateTime.value_error(v)
-        if comps.get('extramicroseconds'):
-            raise ValueError('Extra microseconds')
-        if comps.get('microsecond'):
+        comps = {k: c for k, c in match.groupdict().items() if c is not None}
+        tz = comps.pop('tz', None)
+        if 'microsecond' in comps:
             # We have to convert decimal fractions of seconds to microseconds.
             # This is done by first chopping off anything under 6 decimal places,
             # then (in case we got less precision) right-padding with 0 to get a
             # 6-digit number.
             comps['microsecond'] = comps['microsecond'][:6].ljust(6, '0')
-        if cls == datetime.datetime and 'year' not in comps:
+        if 'year' not in comps:
             d = datetime.date.today()
             for a in ['year', 'month', 'day']:
                 comps[a] = getattr(d, a)
-        res = cls(**{k: int(v) for k, v in comps.items() if v is not None})
-        if tz_marker:
-            # Let dateutils take care of parsing the timezone info:
-            res = res.replace(tzinfo=dateutil.parser.parse(v).tzinfo)
-        return res
+        return datetime.datetime(
+            tzinfo=parse_tz(tz) if tz else None, **{k: int(c) for k, c in comps.items()})
 
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        if pattern and regex:
-            match = regex.match(v)
-            if not match:
-                raise ValueError('{} -- {} -- {}'.format(pattern, v, regex))  # pragma:
-        try:
-            return dateutil.parser.isoparse(v)
-        except ValueError:
-            return dateTime._parse(v, datetime.datetime, regex, tz_marker=tz_marker)
+        if regex:
+            return dateTime._parse(v, regex)
+        return dateutil.parser.isoparse(v)
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
+        if not fmt:
+            return v.isoformat()
+        res = fmt.format(dt=v, microsecond='{:06d}'.format(getattr(v, 'microsecond', 0)))
         if pattern:
-            return babel.dates.format_datetime(v, tzinfo=v.tzinfo, format=pattern)
-        return v.isoformat()
+            return res + format_tz(v, tz_marker)
+        # The default format, allowing for an optional timezone.
+        return res + (format_tz(v, 'XXX') if getattr(v, 'tzinfo', None) else '')
 
     @staticmethod
     def sort_key(v):
@@ -382,23 +360,12 @@ class date(dateTime):
 
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
-        try:
-            return dt_format_and_regex(datatype.format or 'yyyy-MM-dd')
-        except ValueError:
-            warnings.warn('Invalid date format')
-            return dt_format_and_regex('yyyy-MM-dd')
-
-    @staticmethod
-    def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        return with_tz(
-            v.strip(), dateTime.to_python, [], dict(regex=regex, fmt=fmt, pattern=pattern))
-
-    @staticmethod
-    def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        from babel.dates import format_date
-        if pattern:
-            return format_date(v, format=pattern, locale='en')
-        return dateTime.to_string(v, regex=regex, fmt=fmt, tz_marker=tz_marker, pattern=pattern)
+        if datatype.format:
+            try:
+                return dt_format_and_regex(datatype.format)
+            except ValueError:
+                warnings.warn('Invalid date format')
+        return dt_format_and_regex('yyyy-MM-dd', default=True)
 
 
 @register
@@ -427,18 +394,15 @@ class _time(dateTime):
 
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
-        return dt_format_and_regex(datatype.format or 'HH:mm:ss', no_date=True)
-
-    @staticmethod
-    def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        if pattern and 'x' in pattern.lower():
-            return dateutil.parser.parse('{}T{}'.format(datetime.date.today().isoformat(), v))
-        assert regex is not None
-        return with_tz(v, dateTime._parse, [datetime.datetime, regex], dict(tz_marker=tz_marker))
+        if datatype.format:
+            return dt_format_and_regex(datatype.format, no_date=True)
+        return dt_format_and_regex('HH:mm:ss.SSSSSS', no_date=True, default=True)
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        return babel.dates.format_time(v, tzinfo=v.tzinfo, format=pattern)
+        if not pattern and not v.microsecond:
+            fmt = fmt.partition('.{')[0]
+        return dateTime.to_string(v, fmt=fmt, tz_marker=tz_marker, pattern=pattern)
 
     @staticmethod
     def sort_key(v):
@@ -1053,8 +1017,9 @@ class json(string):
         return _json.dumps(v)
 
 
-def dt_format_and_regex(fmt, no_date=False):
+def dt_format_and_regex(fmt, no_date=False, default=False):
     """
+    :param default: Whether `fmt` is the default format, allowing for an optional timezone.
 
     .. seealso:: http://w3c.github.io/csvw/syntax/#formats-for-dates-and-times
     """
@@ -1181,11 +1146,47 @@ def dt_format_and_regex(fmt, no_date=False):
     # Fractions of seconds are a bit of a problem, because datetime objects only offer
     # microseconds.
     if msecs:
-        format += '.{microsecond:.%s}' % msecs
-        regex += r'(\.(?P<microsecond>[0-9]{1,%s})(?![0-9]))?' % msecs
-        regex += r'(\.(?P<extramicroseconds>[0-9]{%s,})(?![0-9]))?' % (msecs + 1,)
+        format += '.{microsecond:0<%s.%s}' % (msecs, msecs)
+        regex += r'(\.(?P<microsecond>[0-9]{1,%s}))?' % msecs
+
+    if tz_marker:
+        regex += '%s(?P<tz>%s)' % (' ' if tz_marker.startswith(' ') else '', TZ_PATTERN)
+    elif default:
+        regex += '(?P<tz>%s)?' % TZ_PATTERN
+
+    return {
+        'regex': re.compile(regex),
+        'fmt': format,
+        'tz_marker': tz_marker,
+        'pattern': None if default else pattern}
+
 
-    return {'regex': re.compile(regex), 'fmt': format, 'tz_marker': tz_marker, 'pattern': pattern}
+TZ_PATTERN = '[zZ]|[+-][0-2][0-9](:?[0-5][0-9])?'
+
+
+def parse_tz(s):
+    if s in 'zZ':
+        return datetime.timezone.utc
+    delta = datetime.timedelta(hours=int(s[1:3]), minutes=int(s[3:].replace(':', '') or 0))
+    return datetime.timezone(-delta if s[0] == '-' else delta)
+
+
+def format_tz(v, marker):
+    """
+    :param marker: `None` or one to three "x" or "X", possibly preceded by a space.
+    """
+    if not marker:
+        return ''
+    prefix, marker = ' ' if marker.startswith(' ') else '', marker.strip()
+    offset = getattr(v, 'tzinfo', None) and v.utcoffset() or datetime.timedelta()
+    if 'X' in marker and not offset:
+        tz = 'Z'
+    else:
+        hours, minutes = divmod(abs(offset) // datetime.timedelta(minutes=1), 60)
+        tz = '{}{:02d}'.format('-' if offset < datetime.timedelta() else '+', hours)
+        if minutes or len(marker) > 1:
+            tz += '{}{:02d}'.format(':' if len(marker) == 3 else '', minutes)
+    return prefix + tz
 
 
 def replace_separators(s, separators):
-- 
2.43.0


From 4b80ff64770dfe9f73221df8e907df01c64fe187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 013/113] fix: reject JSON nested too deeply with ValueError

---
 src/csvw/datatypes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index ea82571..9644177 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1004,12 +1004,12 @@ class json(string):
     # why not just to_python = staticmethod(_json.loads)?
     @staticmethod
     def to_python(v, schema=None, **kw):
-        res = _json.loads(v, object_pairs_hook=collections.OrderedDict)
-        if schema:
-            try:
+        try:
+            res = _json.loads(v, object_pairs_hook=collections.OrderedDict)
+            if schema:
                 jsonschema.validate(res, schema=schema)
-            except jsonschema.ValidationError:
-                json.value_error(v)
+        except (jsonschema.ValidationError, RecursionError):
+            json.value_error(v)
         return res
 
     @staticmethod
-- 
2.43.0


From 8dab1db3a665fa3df81bba446a50792b85108145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 014/113] fix: reading floats with percent sign and large
 exponent

---
 src/csvw/datatypes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 9644177..42cf57a 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -826,8 +826,11 @@ class _float(anyAtomicType):
                 # Accepted by `float`, but not a number in the sense of XML Schema.
                 _float.value_error(v)
         try:
-            return float(_decimal.Decimal(v).scaleb(shift)) if shift else float(v)
-        except (TypeError, ValueError, _decimal.InvalidOperation):
+            if shift:
+                number, e, exp = v.lower().partition('e')
+                v = '{}e{}'.format(number, int(exp if e else 0) + shift)
+            return float(v)
+        except (TypeError, ValueError):
             _float.value_error(v)
 
     @staticmethod
-- 
2.43.0


From cd430e96c10dd397b0c9c49aa10bed515942cf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 015/113] fix: minimal number of digits and precision for
 number patterns with groups or percent signs

---
 src/csvw/datatypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 42cf57a..7ec89c0 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1240,8 +1240,8 @@ def format_number(v, pattern, decimalChar=None, groupChar=None):
     np = NumberPattern(pattern)
     _, digits, exp = _decimal.Decimal('{}'.format(v)).as_tuple()
     with _decimal.localcontext() as ctx:
-        # Rounding is only done as required by the pattern.
-        ctx.prec = max(ctx.prec, len(digits) + abs(exp) + len(pattern))
+        # Rounding is only done as required by the pattern, after scaling for percent or per-mille.
+        ctx.prec = max(ctx.prec, len(digits) + abs(exp) + len(pattern) + 3)
         v = babel.numbers.format_decimal(v, '{};{}'.format(np.positive, np.negative), 'en')
     return replace_separators(v, {'.': decimalChar, ',': groupChar})
 
@@ -1278,8 +1278,8 @@ class NumberPattern:
 
     @property
     def min_digits_before_decimal_point(self):
-        integral_part = self.positive.split('.')[0]
-        match = re.search('([0]+)$', integral_part)
+        integral_part = self.positive.split('.')[0].replace(',', '')
+        match = re.search('([0]+)[^0#]*$', integral_part)
         if match:
             return len(match.groups()[0])
 
-- 
2.43.0


From 1833ea2f7731960ee791c42fdd0af2880e1a2505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 016/113] fix: refuse date formats with empty date or time part

---
 src/csvw/datatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 7ec89c0..0c84243 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1098,7 +1098,8 @@ def dt_format_and_regex(fmt, no_date=False, default=False):
         msecs = len(msecs)   # ... and store it's length.
 
     # Now we can check whether the bare date and time formats are valid:
-    if (dfmt and dfmt not in date_patterns) or (tfmt and tfmt not in time_patterns):
+    if (dfmt is not None and dfmt not in date_patterns) or \
+            (tfmt is not None and tfmt not in time_patterns):
         raise ValueError(fmt)
 
     regex, format = '', ''  # Initialize the output.
-- 
2.43.0


From 42873c97b359e2c8c8f4a45d23d16c9832bdc9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 017/113] fix: write null with empty null property, and require
 values for lists

---
 src/csvw/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index ba32f20..c928c75 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -821,7 +821,7 @@ class Column(Description):
         if not v:
             v = default
 
-        if required and v in null:
+        if required and (v in null or (separator and not v)):
             if not strict:
                 warnings.warn('required column value is missing')
             raise ValueError('required column value is missing')
@@ -856,7 +856,7 @@ class Column(Description):
 
         def fmt(v):
             if v is None:
-                return null[0]
+                return null[0] if null else ''
             if datatype:
                 return datatype.formatted(v)
             return v
-- 
2.43.0


From 9c14d56112f2c59f5200bbfea4794cb3d66a4d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 018/113] fix: keep dialect with default properties when
 serializing metadata

---
 src/csvw/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index c928c75..9eceb1e 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -494,9 +494,11 @@ class DescriptionBase:
         # is not the empty list. Thus, to allow setting it to empty, we must treat `null` as
         # special case here.
         # See also https://www.w3.org/TR/tabular-metadata/#dfn-inherited-property
+        # A `dialect` with default properties is different from no `dialect`, too, because it
+        # overrides the dialect of a containing table group.
         return collections.OrderedDict(
             (k, v) for k, v in self._iter_dict_items(omit_defaults)
-            if (k == 'null' or (v not in ([], {}))))
+            if (k in ('null', 'dialect') or (v not in ([], {}))))
 
 
 def optional_int():
-- 
2.43.0


From bbca38a738402eba13aa0ebe494727f3b6a8bc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 019/113] fix: read zipped and remote data files with the
 encoding and line endings of local ones

---
 src/csvw/metadata.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 9eceb1e..1cf16a7 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1356,10 +1356,15 @@ class Table(TableLike):
             if col.required:
                 requiredcols.add(col.header)
 
+        def text(fp):
+            # Line endings must be preserved, and a BOM skipped, as when reading from a local path.
+            encoding = dialect.python_encoding
+            return io.TextIOWrapper(
+                fp, encoding='utf-8-sig' if encoding == 'utf-8' else encoding, newline='')
+
         with contextlib.ExitStack() as stack:
             if is_url(fname):
-                handle = io.TextIOWrapper(
-                    io.BytesIO(requests.get(str(fname)).content), encoding=dialect.encoding)
+                handle = text(io.BytesIO(requests.get(str(fname)).content))
             else:
                 handle = fname
                 fpath = pathlib.Path(fname)
@@ -1367,9 +1372,8 @@ class Table(TableLike):
                     zipfname = fpath.parent.joinpath(fpath.name + '.zip')
                     if zipfname.exists():
                         zipf = stack.enter_context(zipfile.ZipFile(str(zipfname)))
-                        handle = io.TextIOWrapper(
-                            zipf.open([n for n in zipf.namelist() if n.endswith(fpath.name)][0]),
-                            encoding=dialect.encoding)
+                        handle = text(
+                            zipf.open([n for n in zipf.namelist() if n.endswith(fpath.name)][0]))
 
             reader = stack.enter_context(UnicodeReaderWithLineNumber(handle, dialect=dialect))
             reader = iter(reader)
-- 
2.43.0


From 9f94115f69aaddb2177ecf475e5bb20b34555045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 020/113] fix: match cells to columns by any of the titles, and
 check inherited required

---
 src/csvw/metadata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 1cf16a7..e762dd3 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -994,7 +994,7 @@ class Schema(Description):
         assert (not strict) or (col and col.name)
         if not col:
             for c in self.columns:
-                if c.titles and c.titles.getfirst() == name:
+                if name is not None and c.has_title(name):
                     return c
                 if c.propertyUrl and c.propertyUrl.uri == name:
                     return c
@@ -1353,8 +1353,8 @@ class Table(TableLike):
                     virtualcols.append((col.header, col.valueUrl))
             else:
                 colnames.append(col.header)
-            if col.required:
-                requiredcols.add(col.header)
+                if col.inherit('required'):
+                    requiredcols.add(col.header)
 
         def text(fp):
             # Line endings must be preserved, and a BOM skipped, as when reading from a local path.
@@ -1424,7 +1424,7 @@ class Table(TableLike):
                 raise ValueError('{0} is missing required columns {1}'.format(fname, missing))
 
             for lineno, row in reader:
-                required = {h: j for j, h, c in header_cols if c and c.required}
+                required = {h: j for j, h, c in header_cols if c and c.inherit('required')}
                 res = _Row()
                 error = False
                 if (not header_cols) and row:
-- 
2.43.0


From 2a71371d367baa0c4445d68da42a6c02d024178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 021/113] fix: only warn about missing required values when
 reading without strictness

---
 src/csvw/metadata.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index e762dd3..0d6e07e 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1421,7 +1421,10 @@ class Table(TableLike):
             header_cols = [(j, h, c) for j, (h, c) in enumerate(header_cols)]
             missing = requiredcols - set(c.header for j, h, c in header_cols if c)
             if missing:
-                raise ValueError('{0} is missing required columns {1}'.format(fname, missing))
+                msg = '{0} is missing required columns {1}'.format(fname, missing)
+                if strict:
+                    raise ValueError(msg)
+                warnings.warn(msg)
 
             for lineno, row in reader:
                 required = {h: j for j, h, c in header_cols if c and c.inherit('required')}
@@ -1458,11 +1461,13 @@ class Table(TableLike):
 
                 for k, j in required.items():
                     if k not in res:
-                        log_or_raise(
-                            '{0}:{1}:{2} {3}: {4}'.format(
-                                fname, lineno, j + 1, k, 'required column value is missing'),
-                            log=log)
-                        error = True
+                        msg = '{0}:{1}:{2} {3}: {4}'.format(
+                            fname, lineno, j + 1, k, 'required column value is missing')
+                        if strict:
+                            log_or_raise(msg, log=log)
+                            error = True
+                        else:
+                            warnings.warn(msg)
 
                 # Augment result with regular columns not provided in the data:
                 for key in colnames:
-- 
2.43.0


From df8bdfe2ca84cf49a8680e8c5ea8aaae27371406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 022/113] fix: report invalid values of notes, primaryKey,
 rowTitles and suppressOutput of tables

---
 src/csvw/metadata.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 0d6e07e..b1bb43d 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -940,10 +940,13 @@ class Schema(Description):
     foreignKeys = attr.ib(
         default=attr.Factory(list),
         converter=lambda v: [] if v is None else converter_foreignKeys(v))
-    primaryKey = column_reference()
+    primaryKey = attr.ib(
+        default=None,
+        converter=lambda v: None if v is None else utils.converter(
+            str, None, v if isinstance(v, list) else [v]))
     rowTitles = attr.ib(
         default=attr.Factory(list),
-        converter=lambda v: v if isinstance(v, list) else [v],
+        converter=lambda v: utils.converter(str, None, v if isinstance(v, list) else [v]),
     )
 
     def __attrs_post_init__(self):
@@ -1051,7 +1054,8 @@ class TableLike(Description):
         default=None,
         converter=lambda v: v if (v is None or isinstance(v, str))
         else Dialect(**dialect_props(v)))
-    notes = attr.ib(default=attr.Factory(list))
+    notes = attr.ib(
+        default=attr.Factory(list), converter=functools.partial(utils.converter, list, []))
     tableDirection = attr.ib(
         default='auto',
         converter=functools.partial(
@@ -1207,7 +1211,8 @@ class Table(TableLike):
 
     .. seealso:: `<https://www.w3.org/TR/tabular-metadata/#tables>`_
     """
-    suppressOutput = attr.ib(default=False)
+    suppressOutput = attr.ib(
+        default=False, converter=functools.partial(utils.converter, bool, False))
     _comments = []
 
     def add_foreign_key(self, colref, ref_resource, ref_colref):
-- 
2.43.0


From f8b96dc9c485f013d84d30d90e82c177378181e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:02 +0000
Subject: [PATCH 023/113] fix: keep empty common properties and omit invalid
 URI templates when serializing metadata

---
 src/csvw/metadata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index b1bb43d..487c49a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -486,7 +486,7 @@ class DescriptionBase:
             yield k, _asdict_multiple(v)
 
         for k, v in utils.attr_asdict(self, omit_defaults=omit_defaults).items():
-            if k not in ('common_props', 'at_props'):
+            if k not in ('common_props', 'at_props') and v is not INVALID:
                 yield k, _asdict_multiple(v)
 
     def asdict(self, omit_defaults=True) -> dict:
@@ -495,10 +495,11 @@ class DescriptionBase:
         # special case here.
         # See also https://www.w3.org/TR/tabular-metadata/#dfn-inherited-property
         # A `dialect` with default properties is different from no `dialect`, too, because it
-        # overrides the dialect of a containing table group.
+        # overrides the dialect of a containing table group. And the values of common properties
+        # are kept as they are.
         return collections.OrderedDict(
             (k, v) for k, v in self._iter_dict_items(omit_defaults)
-            if (k in ('null', 'dialect') or (v not in ([], {}))))
+            if (k in ('null', 'dialect') or ':' in k or (v not in ([], {}))))
 
 
 def optional_int():
-- 
2.43.0


From 68522fb55bccf2e5b162d339cd6d245b7b749dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 024/113] fix: recognize the properties of transformations

---
 src/csvw/metadata.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 487c49a..eb79667 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1017,11 +1017,24 @@ def dialect_props(d):
     return partitioned
 
 
+@attr.s
+class Transformation(DescriptionBase):
+    """
+    .. seealso:: http://w3c.github.io/csvw/metadata/#transformation-definitions
+    """
+    url = attr.ib(default=None)
+    scriptFormat = attr.ib(default=None)
+    targetFormat = attr.ib(default=None)
+    source = attr.ib(default=None)
+    titles = attr.ib(default=None)
+
+
 def valid_transformations(instance, attribute, value):
     if not isinstance(value, list):
         warnings.warn('Invalid transformations property')
+        return
     for tr in value:
-        Description.partition_properties(tr, type_name='Template')
+        Transformation.partition_properties(tr, type_name='Template')
 
 
 @attr.s
-- 
2.43.0


From ca1f132d1889813579d9557ce481da319c9f730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 025/113] fix: keep @-properties of dialects and report unknown
 ones

---
 src/csvw/metadata.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index eb79667..c841301 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -208,6 +208,13 @@ class Dialect(BaseDialect):
         default=None,
         converter=functools.partial(utils.converter, str, None, allow_none=True),
         validator=attr.validators.optional(attr.validators.instance_of(str)))
+    at_props = attr.ib(default=attr.Factory(dict))
+
+    def asdict(self, omit_defaults=True):
+        res = super().asdict(omit_defaults=omit_defaults)
+        res.pop('at_props', None)
+        res.update(('@' + k, v) for k, v in self.at_props.items())
+        return res
 
 
 def json_open(filename, mode='r', encoding='utf-8'):
@@ -1010,8 +1017,10 @@ def dialect_props(d):
         warnings.warn('Invalid dialect spec')
         return {}
     partitioned = Description.partition_properties(d, type_name='Dialect', strict=False)
-    del partitioned['at_props']
     del partitioned['common_props']
+    for k in set(partitioned) - set(attr.fields_dict(Dialect)):
+        warnings.warn('Invalid property {} for Dialect'.format(k))
+        del partitioned[k]
     if partitioned.get('headerRowCount'):
         partitioned['header'] = True
     return partitioned
-- 
2.43.0


From 68e5379ec58f18660eba3db09af894c9fe823422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 026/113] fix: accept a single string as lineTerminators

---
 src/csvw/dsv_dialects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/dsv_dialects.py b/src/csvw/dsv_dialects.py
index f5b423c..0c08b7b 100644
--- a/src/csvw/dsv_dialects.py
+++ b/src/csvw/dsv_dialects.py
@@ -55,7 +55,7 @@ class Dialect(object):
         validator=attr.validators.instance_of(str))
 
     lineTerminators = attr.ib(
-        converter=functools.partial(utils.converter, list, ['\r\n', '\n']),
+        converter=functools.partial(utils.converter, (list, str), ['\r\n', '\n']),
         default=attr.Factory(lambda: ['\r\n', '\n']))
 
     quoteChar = attr.ib(
-- 
2.43.0


From 7616dac4b3a51a55e7878881c3ebfca4c72ad73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 027/113] fix: inherit default and lang, and let explicit
 defaults override inherited values

---
 src/csvw/metadata.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index c841301..aca5273 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -756,19 +756,39 @@ class Description(DescriptionBase):
             str, None, allow_none=True, cond=lambda v: v in [None, "ltr", "rtl", "auto", "inherit"])
     )
     valueUrl = uri_template_property()
+    # Some inherited properties have a default other than `None`. For these, we keep track of whether
+    # the default was specified explicitly, and thus overrides the value of the containing object.
+    _explicit_defaults = attr.ib(default=attr.Factory(dict), init=False, repr=False, eq=False)
 
-    def inherit(self, attr):
+    @classmethod
+    def fromvalue(cls, d: dict):
+        res = cls(**cls.partition_properties(d))
+        defaults = dict(default="", lang="und", null=[""])
+        res._explicit_defaults = {
+            k: v for k, v in defaults.items()
+            if k in (d or {}) and (d[k] == v or [d[k]] == v)}
+        return res
+
+    def _is_specified(self, attr):
         v = getattr(self, attr)
-        if v is None and self._parent:
+        if attr in ('default', 'lang', 'null'):
+            return v != utils.attr_defaults(self.__class__)[attr] or attr in self._explicit_defaults
+        return v is not None
+
+    def inherit(self, attr):
+        if not self._is_specified(attr) and self._parent:
             return self._parent.inherit(attr) if hasattr(self._parent, 'inherit') \
                 else getattr(self._parent, attr)
-        return v
+        return getattr(self, attr)
 
     def inherit_null(self):
-        if self.null == [""]:
-            if self._parent and hasattr(self._parent, 'inherit_null'):
-                return self._parent.inherit_null()
-        return self.null
+        return self.inherit('null')
+
+    def asdict(self, omit_defaults=True) -> dict:
+        res = super().asdict(omit_defaults=omit_defaults)
+        for k, v in self._explicit_defaults.items():
+            res.setdefault(k, v)
+        return res
 
 
 def converter_titles(v):
@@ -994,7 +1014,7 @@ class Schema(Description):
             if isinstance(v, int):
                 warnings.warn('Invalid value for tableSchema property')
             v = {}
-        return cls(**cls.partition_properties(v))
+        return super().fromvalue(v)
 
     @property
     def columndict(self):
-- 
2.43.0


From 399e540a5a8e29130bd29e871a0fbf5e6527faa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 028/113] fix: report arrays given as values of atomic
 properties

---
 src/csvw/dsv_dialects.py |  3 ++-
 src/csvw/metadata.py     | 13 +++++++------
 src/csvw/utils.py        |  2 +-
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/csvw/dsv_dialects.py b/src/csvw/dsv_dialects.py
index 0c08b7b..22ba002 100644
--- a/src/csvw/dsv_dialects.py
+++ b/src/csvw/dsv_dialects.py
@@ -55,7 +55,8 @@ class Dialect(object):
         validator=attr.validators.instance_of(str))
 
     lineTerminators = attr.ib(
-        converter=functools.partial(utils.converter, (list, str), ['\r\n', '\n']),
+        converter=functools.partial(
+            utils.converter, (list, str), ['\r\n', '\n'], allow_list=True),
         default=attr.Factory(lambda: ['\r\n', '\n']))
 
     quoteChar = attr.ib(
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index aca5273..0edefe4 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -735,7 +735,7 @@ class Description(DescriptionBase):
         converter=lambda v: v if not v else Datatype.fromvalue(v))
     default = attr.ib(
         default="",
-        converter=functools.partial(utils.converter, str, "", allow_list=False),
+        converter=functools.partial(utils.converter, str, ""),
     )
     lang = attr.ib(default="und", converter=converter_lang)
     null = attr.ib(default=attr.Factory(lambda: [""]), converter=converter_null)
@@ -941,7 +941,7 @@ class ForeignKey:
 
 def converter_foreignKeys(v):
     res = []
-    for d in functools.partial(utils.converter, dict, None)(v):
+    for d in utils.converter(dict, None, v, allow_list=True) or []:
         try:
             res.append(ForeignKey.fromdict(d))
         except TypeError:
@@ -963,18 +963,19 @@ class Schema(Description):
     columns = attr.ib(
         default=attr.Factory(list),
         converter=lambda v: [
-            Column.fromvalue(c) for c in functools.partial(utils.converter, dict, None)(
-                functools.partial(utils.converter, list, [])(v))])
+            Column.fromvalue(c) for c in utils.converter(
+                dict, None, utils.converter(list, [], v), allow_list=True)])
     foreignKeys = attr.ib(
         default=attr.Factory(list),
         converter=lambda v: [] if v is None else converter_foreignKeys(v))
     primaryKey = attr.ib(
         default=None,
         converter=lambda v: None if v is None else utils.converter(
-            str, None, v if isinstance(v, list) else [v]))
+            str, None, v if isinstance(v, list) else [v], allow_list=True))
     rowTitles = attr.ib(
         default=attr.Factory(list),
-        converter=lambda v: utils.converter(str, None, v if isinstance(v, list) else [v]),
+        converter=lambda v: utils.converter(
+            str, None, v if isinstance(v, list) else [v], allow_list=True),
     )
 
     def __attrs_post_init__(self):
diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index fcfa328..111e52a 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -16,7 +16,7 @@ def is_url(s):
     return re.match(r'https?://', str(s))
 
 
-def converter(type_, default, s, allow_none=False, cond=None, allow_list=True):
+def converter(type_, default, s, allow_none=False, cond=None, allow_list=False):
     if allow_list and type_ != list and isinstance(s, list):
         return [v for v in [converter(type_, None, ss, cond=cond) for ss in s] if v is not None]
 
-- 
2.43.0


From d2aede5222de8970bd78a29a740da1d2aa047066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 029/113] fix: keep empty datatype descriptions, which override
 inherited datatypes

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 0edefe4..619491e 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -732,7 +732,7 @@ class Description(DescriptionBase):
     aboutUrl = uri_template_property()
     datatype = attr.ib(
         default=None,
-        converter=lambda v: v if not v else Datatype.fromvalue(v))
+        converter=lambda v: v if v is None else Datatype.fromvalue(v))
     default = attr.ib(
         default="",
         converter=functools.partial(utils.converter, str, ""),
-- 
2.43.0


From 902fcecd830d165163532af8d0d21b63ea6cf300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 030/113] fix: number columns before checking for duplicate
 names

---
 src/csvw/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 619491e..b83734d 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -981,6 +981,8 @@ class Schema(Description):
     def __attrs_post_init__(self):
         virtual, seen, names = False, set(), set()
         for i, col in enumerate(self.columns):
+            col._parent = self
+            col._number = i + 1
             if col.name and (col.name.startswith('_') or re.search(r'\s', col.name)):
                 warnings.warn('Invalid column name')
             if col.virtual:  # first virtual column sets the flag
@@ -995,8 +997,6 @@ class Schema(Description):
                         raise ValueError('Duplicate column name {}'.format(col.name))
                     names.add(col.name)
                 seen.add(col.header)
-            col._parent = self
-            col._number = i + 1
         for colref in self.primaryKey or []:
             col = self.columndict.get(colref)
             if col and not col.name:
-- 
2.43.0


From a71377e604d64495779b2ca55a9f8b2722213cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 031/113] fix: check primary keys which include list-valued or
 JSON columns

---
 src/csvw/metadata.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index b83734d..cab4646 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -379,6 +379,17 @@ class NaturalLanguage(collections.OrderedDict):
         return self.get(lang, [None])[0]
 
 
+def hashable(v):
+    """
+    Values of list-valued columns and JSON documents cannot be looked up in a `set`.
+    """
+    if isinstance(v, dict):
+        return frozenset((k, hashable(vv)) for k, vv in v.items())
+    if isinstance(v, list):
+        return tuple(hashable(vv) for vv in v)
+    return v
+
+
 def valid_id_property(v):
     if not isinstance(v, str):
         warnings.warn('Inconsistent link property')
@@ -1353,13 +1364,14 @@ class Table(TableLike):
             # Read all rows in the table, ignoring errors:
             for fname, lineno, row in self.iterdicts(log=nolog(), with_metadata=True):
                 pk = get_pk(row)
-                if pk in seen:
+                pk_value = hashable(list(pk) if len(self.tableSchema.primaryKey) > 1 else pk)
+                if pk_value in seen:
                     log_or_raise(
                         '{0}:{1} duplicate primary key: {2}'.format(fname, lineno, pk),
                         log=log)
                     success = False
                 else:
-                    seen.add(pk)
+                    seen.add(pk_value)
         return success
 
     def __iter__(self):
-- 
2.43.0


From ec8aa93c99c0af455ed8a127426cd059adc14ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:20 +0000
Subject: [PATCH 032/113] fix: check foreign keys with list-valued, JSON and
 URI columns, and report invalid ones

---
 src/csvw/metadata.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index cab4646..f94ceca 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -385,7 +385,7 @@ def hashable(v):
     """
     if isinstance(v, dict):
         return frozenset((k, hashable(vv)) for k, vv in v.items())
-    if isinstance(v, list):
+    if type(v) in (list, tuple):
         return tuple(hashable(vv) for vv in v)
     return v
 
@@ -1364,7 +1364,7 @@ class Table(TableLike):
             # Read all rows in the table, ignoring errors:
             for fname, lineno, row in self.iterdicts(log=nolog(), with_metadata=True):
                 pk = get_pk(row)
-                pk_value = hashable(list(pk) if len(self.tableSchema.primaryKey) > 1 else pk)
+                pk_value = hashable(pk)
                 if pk_value in seen:
                     log_or_raise(
                         '{0}:{1} duplicate primary key: {2}'.format(fname, lineno, pk),
@@ -1671,8 +1671,9 @@ class TableGroup(TableLike):
             self.validate_schema()
             success = True
         except ValueError as e:
-            success = False
             log_or_raise(str(e), log=log, level='error')
+            # The data cannot be checked if tables or columns are missing.
+            return False
         fkeys = self.foreign_keys()
         # FIXME: We only support Foreign Key references between tables!
         fkeys = sorted(fkeys, key=lambda x: (x[0].local_name, x[1], x[2].local_name))
@@ -1687,20 +1688,23 @@ class TableGroup(TableLike):
             get_seen = [(operator.itemgetter(*key), set()) for key, _ in t_fkeys]
             for row in table.iterdicts(log=log):
                 for get, seen in get_seen:
-                    if get(row) in seen:
+                    key = hashable(get(row))
+                    if key in seen:
                         # column references for a foreign key are not unique!
                         if strict:
                             success = False
-                    seen.add(get(row))
+                    seen.add(key)
             for (key, children), (_, seen) in zip(t_fkeys, get_seen):
                 single_column = (len(key) == 1)
                 for child, ref in children:
                     get_ref = operator.itemgetter(*ref)
+                    # Note: The value of a JSON column may be a `list` as well.
+                    list_valued = single_column and child.get_column(ref[0]).inherit('separator')
                     for fname, lineno, item in child.iterdicts(log=log, with_metadata=True):
                         colref = get_ref(item)
                         if colref is None:
                             continue
-                        elif single_column and isinstance(colref, list):
+                        elif list_valued and isinstance(colref, list):
                             # We allow list-valued columns as foreign key columns in case
                             # it's not a composite key. If a foreign key is list-valued, we
                             # check for a matching row for each of the values in the list.
@@ -1708,10 +1712,11 @@ class TableGroup(TableLike):
                         else:
                             colrefs = [colref]
                         for colref in colrefs:
-                            if not single_column and None in colref:  # pragma: no cover
+                            if colref is None or (
+                                    not single_column and any(c is None for c in colref)):
                                 # TODO: raise if any(c is not None for c in colref)?
                                 continue
-                            elif colref not in seen:
+                            elif hashable(colref) not in seen:
                                 log_or_raise(
                                     '{0}:{1} Key `{2}` not found in table {3}'.format(
                                         fname,
-- 
2.43.0


From 803b33f7822a1e4bac0fc926ae4b816a19e61ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 033/113] fix: values NaN of decimals do not satisfy any bounds

---
 src/csvw/datatypes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 0c84243..4fe6441 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -583,6 +583,12 @@ class decimal(anyAtomicType):
 
         return replace_separators(v, {'.': decimalChar, ',': groupChar})
 
+    @staticmethod
+    def sort_key(v):
+        if isinstance(v, _decimal.Decimal) and v.is_nan():
+            raise ValueError('NaN cannot be compared')
+        return v
+
 
 @register
 class integer(decimal):
-- 
2.43.0


From a592ca512e04db240ec55237cf5ee2d81a12f65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 034/113] fix: report primary keys with missing columns

---
 src/csvw/metadata.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index f94ceca..78f6f70 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1359,6 +1359,14 @@ class Table(TableLike):
             warnings.warn('the items argument of check_primary_key '
                           'is deprecated (its content will be ignored)')  # pragma: no cover
         if self.tableSchema.primaryKey:
+            columns = self.tableSchema.columndict
+            missing = [c for c in self.tableSchema.primaryKey if columns and c not in columns]
+            if missing:
+                log_or_raise(
+                    'primary key of table {0} references missing columns {1}'.format(
+                        self.local_name, missing),
+                    log=log)
+                return False
             get_pk = operator.itemgetter(*self.tableSchema.primaryKey)
             seen = set()
             # Read all rows in the table, ignoring errors:
-- 
2.43.0


From 93f99388d45f60861849f996ff43347bee06289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 035/113] fix: report malformed rows like rows with invalid
 cells

---
 src/csvw/metadata.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 78f6f70..c3caf11 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -8,6 +8,7 @@ This module implements (partially) the W3C recommendation
 .. seealso:: https://www.w3.org/TR/tabular-metadata/
 """
 import io
+import csv
 import re
 import json
 import shutil
@@ -1431,6 +1432,22 @@ class Table(TableLike):
             return io.TextIOWrapper(
                 fp, encoding='utf-8-sig' if encoding == 'utf-8' else encoding, newline='')
 
+        def report_malformed_row(lineno, exc):
+            msg = '{0}:{1} {2}'.format(fname, lineno, exc)
+            if strict:
+                log_or_raise(msg, log=log)
+            else:
+                warnings.warn(msg)
+
+        def iterrows(reader):
+            while True:
+                try:
+                    yield next(reader)
+                except StopIteration:
+                    return
+                except csv.Error as e:
+                    report_malformed_row(reader.lineno + 1, e)
+
         with contextlib.ExitStack() as stack:
             if is_url(fname):
                 handle = text(io.BytesIO(requests.get(str(fname)).content))
@@ -1464,6 +1481,9 @@ class Table(TableLike):
                                 warnings.warn('Incompatible column titles')
                 except StopIteration:  # pragma: no cover
                     return
+                except csv.Error as e:
+                    report_malformed_row(reader.lineno + 1, e)
+                    return
             else:
                 header = colnames
 
@@ -1495,7 +1515,7 @@ class Table(TableLike):
                     raise ValueError(msg)
                 warnings.warn(msg)
 
-            for lineno, row in reader:
+            for lineno, row in iterrows(reader):
                 required = {h: j for j, h, c in header_cols if c and c.inherit('required')}
                 res = _Row()
                 error = False
-- 
2.43.0


From 48b18e5a0b0598bf8ea4c1b5a944cff0531deac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 036/113] fix: make validation independent of warning filters

---
 src/csvw/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index c3caf11..3a96db2 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1766,6 +1766,8 @@ class CSVW:
         with contextlib.ExitStack() as stack:
             if validate:
                 w = stack.enter_context(warnings.catch_warnings(record=True))
+                # The result must not depend on the warning filters of the application.
+                warnings.simplefilter('always', category=UserWarning)
 
             no_header = False
             try:
@@ -1819,6 +1821,7 @@ class CSVW:
         if self.warnings:
             return False
         with warnings.catch_warnings(record=True) as w:
+            warnings.simplefilter('always', category=UserWarning)
             for table in self.tables:
                 for _ in table.iterdicts(strict=False):
                     pass
-- 
2.43.0


From 0ac135ccd993cd4516a2a9d5d4f2b8a96c945456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 037/113] fix: read CSV files which are not UTF-8 encoded or
 look like JSON values

---
 src/csvw/metadata.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 3a96db2..fa9bbb1 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1774,10 +1774,18 @@ class CSVW:
                 md = get_json(md_url or url)
                 # The URL could be read as JSON document, thus, the user supplied us with overriding
                 # metadata as per https://w3c.github.io/csvw/syntax/#overriding-metadata
-            except json.decoder.JSONDecodeError:
-                # So we got a CSV file, no JSON. Let's locate metadata using the other methods.
+                if not (md_url or isinstance(md, (dict, list))):
+                    # The content of a CSV file may happen to be a valid JSON value, e.g. a number.
+                    md, no_header = self.locate_metadata(url)
+            except ValueError:
+                if md_url:
+                    raise
+                # So we got a CSV file, no (UTF-8 encoded) JSON. Let's locate metadata using the
+                # other methods.
                 md, no_header = self.locate_metadata(url)
 
+            if not isinstance(md, dict):
+                raise ValueError('Invalid metadata: must be a JSON object')
             self.no_metadata = set(md.keys()) == {'@context', 'url'}
             if "http://www.w3.org/ns/csvw" not in md.get('@context', ''):
                 raise ValueError('Invalid or no @context')
-- 
2.43.0


From aaf75dc00d211acffcfd370432b84e786dd45a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 038/113] fix: NaN of floating point types does not satisfy any
 bounds

---
 src/csvw/datatypes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 4fe6441..297f013 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -848,6 +848,12 @@ class _float(anyAtomicType):
         return replace_separators(
             ('{}' if groupChar is None else '{:,}').format(v), {'.': decimalChar, ',': groupChar})
 
+    @staticmethod
+    def sort_key(v):
+        if math.isnan(v):
+            raise ValueError('NaN cannot be compared')
+        return v
+
 
 @register
 class number(_float):
-- 
2.43.0


From af51aad892558b93bd705a7c76cd7b19c5f6f19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 039/113] fix: expand URI templates with the canonical
 representation of typed values

---
 src/csvw/metadata.py | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index fa9bbb1..51d38e9 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -672,6 +672,12 @@ class Datatype(DescriptionBase):
     def formatted(self, v):
         return self.basetype.to_string(v, **self.derived_description)
 
+    def canonical(self, v):
+        """
+        String representation of `v` which does not depend on the `format`.
+        """
+        return Datatype(base=self.base).formatted(v)
+
     def parse(self, v):
         if v is None:
             return v
@@ -1212,6 +1218,29 @@ class TableLike(Description):
         return self._parent._fname.parent if (self._parent and self._parent._fname) else \
             (self._fname.parent if self._fname else None)
 
+    def template_variables(self, row: dict) -> dict:
+        """
+        The values of the cells in a row as strings (or lists of strings), which can be used to
+        expand URI templates.
+
+        .. seealso:: https://www.w3.org/TR/tabular-metadata/#uri-template-properties
+        """
+        def canonical(v, datatype):
+            if v is None or isinstance(v, str):
+                return v
+            return datatype.canonical(v) if datatype else str(v)
+
+        res, columns = {}, self.tableSchema.columndict if self.tableSchema else {}
+        for name, v in row.items():
+            if isinstance(name, str):
+                col = columns.get(name)
+                datatype = col.inherit('datatype') if col else None
+                if isinstance(v, list) and (not col or col.inherit('separator')):
+                    res[name] = [canonical(vv, datatype) for vv in v if vv is not None]
+                else:
+                    res[name] = canonical(v, datatype)
+        return res
+
     def expand(self, tmpl: URITemplate, row: dict, _row, _name=None, qname=False) -> str:
         """
         Expand a `URITemplate` using `row`, `_row` and `_name` as context and resolving the result
@@ -1230,6 +1259,8 @@ class TableLike(Description):
         if tmpl is INVALID:
             return self.url.resolve(self.base)
 
+        # Note: Any name, e.g. "self", may be the name of a column.
+        expanded = tmpl.expand(dict(self.template_variables(row), _row=_row, _name=_name))
         for prefix, url in NAMESPACES.items():
             if tmpl.uri.startswith(prefix + ':'):
                 # If the URI Template is a QName, we expand it to a URL to prevent `Link.resolve`
@@ -1237,12 +1268,7 @@ class TableLike(Description):
                 res = '{}{}'.format(url, tmpl.uri.split(':')[1])
                 break
         else:
-            res = Link(
-                tmpl.expand(
-                    _row=_row,
-                    _name=_name,
-                    **{_k: _v for _k, _v in row.items() if isinstance(_k, str)}
-                )).resolve(self.url.resolve(self.base) if self.url else self.base)
+            res = Link(expanded).resolve(self.url.resolve(self.base) if self.url else self.base)
         if not isinstance(res, pathlib.Path):
             if qname:
                 for prefix, url in NAMESPACES.items():
@@ -1564,7 +1590,7 @@ class Table(TableLike):
 
                 # Augment result with virtual columns:
                 for key, valueUrl in virtualcols:
-                    res[key] = valueUrl.expand(**res)
+                    res[key] = valueUrl.expand(self.template_variables(res))
 
                 if not error:
                     if with_metadata:
-- 
2.43.0


From ee6ac0cec9d6774a0b6d585c479bb6407c44044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 040/113] fix: expand variables in URI templates which start
 with a known prefix

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 51d38e9..7c08711 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1265,7 +1265,7 @@ class TableLike(Description):
             if tmpl.uri.startswith(prefix + ':'):
                 # If the URI Template is a QName, we expand it to a URL to prevent `Link.resolve`
                 # from turning it into a local path.
-                res = '{}{}'.format(url, tmpl.uri.split(':')[1])
+                res = '{}{}'.format(url, expanded[len(prefix) + 1:])
                 break
         else:
             res = Link(expanded).resolve(self.url.resolve(self.base) if self.url else self.base)
-- 
2.43.0


From 9638d9b6bf4b3cd7202821235663dadf2f2603f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:25 +0000
Subject: [PATCH 041/113] fix: JSON values of list items, inherited datatypes
 and fractional seconds with timezone

---
 src/csvw/jsonld.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 92daa46..0ae480b 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -21,27 +21,30 @@ def format_value(value, col):
     """
     Format values as JSON-LD literals.
     """
+    if isinstance(value, list) and col and col.inherit('separator'):
+        return [format_value(v, col) for v in value]
+    datatype = col.inherit('datatype') if col else None
     if isinstance(value, (datetime.date, datetime.datetime, datetime.time)):
         res = value.isoformat()
-        if col and col.datatype.base == 'time':
+        if datatype and datatype.base == 'time':
             res = res.split('T')[-1]
-        if col and col.datatype.base == 'date':
+        if datatype and datatype.base == 'date':
             res = re.sub('T[0-9.:]+', '', res)
         if isinstance(value, (datetime.datetime, datetime.time)):
-            stamp, _, milliseconds = res.partition('.')
-            return '{}.{}'.format(stamp, milliseconds.rstrip('0')) if milliseconds \
-                else stamp.replace('+00:00', 'Z')
+            # Trailing zeros of fractional seconds are omitted:
+            res = re.sub(r'(\.[0-9]*[1-9])0+(?=[^0-9]|$)', r'\1', res)
+            return re.sub(r'\+00:00$', 'Z', res)
         return res  # pragma: no cover
     if isinstance(value, datetime.timedelta):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, Duration):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, decimal.Decimal):
         value = float(value)
     if isinstance(value, URIReference):
         return value.unsplit()
     if isinstance(value, bytes):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, pathlib.Path):
         return str(value)
     if isinstance(value, float):
-- 
2.43.0


From 367e5b0641df1a5ebbb08fade733bb761235d51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 042/113] fix: describe several subjects per row in JSON
 without loss of values

---
 src/csvw/jsonld.py | 119 +++++++++++++++++++++++----------------------
 1 file changed, 62 insertions(+), 57 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 0ae480b..18761fb 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -1,5 +1,4 @@
 import re
-import json
 import math
 import typing
 import decimal
@@ -8,7 +7,7 @@ import datetime
 import collections
 
 import attr
-from rdflib import Graph, URIRef, Literal
+from rdflib import URIRef, Literal
 from rfc3986 import URIReference
 from isodate.duration import Duration
 
@@ -75,12 +74,12 @@ class Triple:
         """
         _name = col.header if col else None
 
-        propertyUrl = col.propertyUrl if col else table.inherit('propertyUrl')
+        propertyUrl = col.inherit('propertyUrl') if col else table.inherit('propertyUrl')
         if propertyUrl:
             prop = table.expand(propertyUrl, row, _row=rownum, _name=_name, qname=True)
 
         is_type = prop == 'rdf:type'
-        valueUrl = col.valueUrl if col else table.inherit('valueUrl')
+        valueUrl = col.inherit('valueUrl') if col else table.inherit('valueUrl')
         if valueUrl:
             val = table.expand(valueUrl, row, _row=rownum, _name=_name, qname=is_type)
         val = format_value(val, col)
@@ -95,23 +94,32 @@ def frame(data: list) -> list:
     """
     Inline referenced items to force a deterministic graph layout.
 
-    .. see:: https://w3c.github.io/json-ld-framing/#introduction
+    .. see:: https://www.w3.org/TR/csv2json/#generating-nested-objects
     """
-    items, refs = collections.OrderedDict(), {}
+    items = collections.OrderedDict((item['@id'], item) for item in data)
+    refs = collections.defaultdict(list)
     for item in data:
-        itemid = item.get('@id')
-        if itemid:
-            items[itemid] = item
-        for vs in item.values():
-            for v in [vs] if not isinstance(vs, list) else vs:
-                if isinstance(v, dict):
-                    refid = v.get('@id')
-                    if refid:
-                        refs.setdefault(refid, (v, []))[1].append(item)
-    for ref, subjects in refs.values():
-        if len(subjects) == 1 and ref['@id'] in items:
-            ref.update(items.pop(ref['@id']))
-    return list(items.values())
+        for prop, vs in item.items():
+            if prop not in ('@id', '@type'):
+                for i, v in enumerate(vs if isinstance(vs, list) else [vs]):
+                    if isinstance(v, str) and v in items:
+                        refs[v].append((item, prop, i))
+
+    parents = {}
+    for ref, places in refs.items():
+        if len(places) == 1:
+            item, prop, index = places[0]
+            ancestor = item['@id']
+            while ancestor in parents and ancestor != ref:
+                ancestor = parents[ancestor]
+            if ancestor == ref:  # Items must not contain themselves.
+                continue
+            parents[ref] = item['@id']
+            if isinstance(item[prop], list):
+                item[prop][index] = items[ref]
+            else:
+                item[prop] = items[ref]
+    return [item for itemid, item in items.items() if itemid not in parents]
 
 
 def to_json(obj, flatten_list=False):
@@ -120,7 +128,7 @@ def to_json(obj, flatten_list=False):
     """
     if isinstance(obj, dict):
         if '@value' in obj:
-            obj = obj['@value']
+            return obj['@value']
         if len(obj) == 1 and '@id' in obj:
             obj = obj['@id']
     if isinstance(obj, dict):
@@ -134,59 +142,56 @@ def to_json(obj, flatten_list=False):
     return obj
 
 
+def add_value(obj: dict, prop: str, value):
+    """
+    Add a value for a property - turning the values of properties which occur repeatedly into lists.
+    """
+    prop = '@type' if prop == 'rdf:type' else prop
+    if prop in obj:
+        if not isinstance(obj[prop], list):
+            obj[prop] = [obj[prop]]
+        obj[prop].extend(value if isinstance(value, list) else [value])
+    else:
+        obj[prop] = value[:] if isinstance(value, list) else value
+
+
 def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
     """
     Group and frame triples into a `list` of JSON objects.
     """
-    merged = []
-    for triple in triples:
-        if isinstance(triple.value, list):
-            for t in merged:
-                if t.property == triple.property and isinstance(t.value, list):
-                    t.value.extend(triple.value)
-                    break
-            else:
-                merged.append(triple)
-        else:
-            merged.append(triple)
-
-    grouped = collections.OrderedDict()
-    triples = []
+    grouped, about = collections.OrderedDict(), []
     # First pass: get top-level properties.
-    for triple in merged:
+    for triple in triples:
         if triple.about is None and triple.property == '@id':
             grouped[triple.property] = triple.value
+        elif not triple.about:
+            add_value(grouped, triple.property, triple.value)
         else:
-            if not triple.about:
-                # For test48
-                if triple.property in grouped:
-                    if not isinstance(grouped[triple.property], list):
-                        grouped[triple.property] = [grouped[triple.property]]
-                    grouped[triple.property].append(triple.value)
-                else:
-                    grouped[triple.property] = triple.value
-            else:
-                triples.append(triple)
+            about.append(triple)
+    triples = about
     if not triples:
         return [grouped]
 
-    g = Graph()
-    for triple in triples:
-        g.add(triple.as_rdflib_triple())
+    subjects = collections.OrderedDict()
     if '@id' in grouped:
-        for prop, val in grouped.items():
-            if prop != '@id':
-                g.add(Triple(about=grouped['@id'], property=prop, value=val).as_rdflib_triple())
-    res = g.serialize(format='json-ld')
-    # Frame and simplify the resulting objects, augment with list index:
-    res = [(i, to_json(v, flatten_list=True)) for i, v in enumerate(frame(json.loads(res)))]
+        subjects[grouped['@id']] = collections.OrderedDict(
+            (prop, val[:] if isinstance(val, list) else val) for prop, val in grouped.items())
+    for triple in triples:
+        add_value(
+            subjects.setdefault(triple.about, collections.OrderedDict([('@id', triple.about)])),
+            triple.property,
+            triple.value)
+    # Frame the resulting objects, augment with list index:
+    res = list(enumerate(frame(list(subjects.values()))))
     # Sort the objects making sure the one with the row's aboutUrl as @id comes first:
     res = [k[1] for k in sorted(
         res, key=lambda o: -1 if o[1].get('@id') == grouped.get('@id') else o[0])]
     # If there's no aboutUrl for the row and we have only one object from triples, we just merge
     # the properties into a single object.
-    if grouped and ('@id' not in grouped) and len(res) == 1:
-        grouped.update(res[0])
-        return [grouped]
+    if grouped and ('@id' not in grouped):
+        if len(res) == 1:
+            grouped.update(res[0])
+            return [grouped]
+        return [grouped] + res
 
     return res
-- 
2.43.0


From c7750cdd4107f18f563b1b20a979170e3047f151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 043/113] fix: keep all objects described by a row in minimal
 JSON

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 7c08711..df67b14 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1949,7 +1949,7 @@ class CSVW:
             self._table_to_json(table) for table in self.tables if not table.suppressOutput]
         if minimal:
             return list(
-                itertools.chain(*[[r['describes'][0] for r in t['row']] for t in res['tables']]))
+                itertools.chain(*[r['describes'] for t in res['tables'] for r in t['row']]))
 
         return res
 
-- 
2.43.0


From 89765e79580572ac2ce5d3943b17ec147bc396bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 044/113] fix: add identifier and notes of table groups to JSON

---
 src/csvw/metadata.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index df67b14..97af753 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1943,8 +1943,13 @@ class CSVW:
         res = collections.OrderedDict()
         # Insert any notes and non-core annotations specified for the group of tables into object
         # G according to the rules provided in § 5. JSON-LD to JSON.
-        if self.t.common_props and not isinstance(self.t, Table):
-            res.update(jsonld.to_json(self.t.common_props, flatten_list=True))
+        if not isinstance(self.t, Table):
+            if 'id' in self.t.at_props:
+                res['@id'] = str(self.t.at_props['id'])
+            if self.t.notes:
+                res['notes'] = jsonld.to_json(self.t.notes)
+            if self.t.common_props:
+                res.update(jsonld.to_json(self.t.common_props, flatten_list=True))
         res['tables'] = [
             self._table_to_json(table) for table in self.tables if not table.suppressOutput]
         if minimal:
-- 
2.43.0


From 0fc0d49099d6e5557f8a7ae334a5a028049edc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 045/113] fix: JSON of tables with relative URL templates or
 typed row titles is serialisable

---
 src/csvw/metadata.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 97af753..6092b8e 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1257,7 +1257,7 @@ class TableLike(Description):
 
         """
         if tmpl is INVALID:
-            return self.url.resolve(self.base)
+            return str(self.url.resolve(self.base))
 
         # Note: Any name, e.g. "self", may be the name of a column.
         expanded = tmpl.expand(dict(self.template_variables(row), _row=_row, _name=_name))
@@ -1275,7 +1275,7 @@ class TableLike(Description):
                     if res.startswith(url):
                         res = res.replace(url, prefix + ':')
                         break
-        return res
+        return str(res)
 
 
 @attr.s
@@ -1963,7 +1963,7 @@ class CSVW:
         # FIXME: id
         res['url'] = str(table.url.resolve(table.base))
         if 'id' in table.at_props:
-            res['@id'] = table.at_props['id']
+            res['@id'] = str(table.at_props['id'])
         if table.notes:
             res['notes'] = jsonld.to_json(table.notes)
         # Insert any notes and non-core annotations specified for the group of tables into object
@@ -1990,8 +1990,9 @@ class CSVW:
         res['url'] = '{}#row={}'.format(table.url.resolve(table.base), rowsourcenum)
         res['rownum'] = rownum
         if table.tableSchema.rowTitles:
+            titles = table.template_variables(row)
             res['titles'] = [
-                t for t in [row.get(name) for name in table.tableSchema.rowTitles] if t]
+                t for t in [titles.get(name) for name in table.tableSchema.rowTitles] if t]
             if len(res['titles']) == 1:
                 res['titles'] = res['titles'][0]
         # Insert any notes and non-core annotations specified for the group of tables into object
-- 
2.43.0


From b147de6470a311e8caf5c2ffe9bc53cf73b511e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 046/113] fix: converting to JSON does not change the metadata

---
 src/csvw/metadata.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 6092b8e..c10e159 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1971,10 +1971,6 @@ class CSVW:
         res.update(jsonld.to_json(table.common_props))
 
         cols = collections.OrderedDict([(col.header, col) for col in table.tableSchema.columns])
-        for col in cols.values():
-            col.propertyUrl = col.inherit('propertyUrl')
-            col.valueUrl = col.inherit('valueUrl')
-
         row = [
             self._row_to_json(table, cols, row, rownum, rowsourcenum)
             for rownum, (_, rowsourcenum, row) in enumerate(
-- 
2.43.0


From 809d89e8ac8b954e55ffc50ce2ed3b6ba7212c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 047/113] fix: emit exactly the cells which are not null in
 JSON

---
 src/csvw/metadata.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index c10e159..f2dc024 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1445,8 +1445,9 @@ class Table(TableLike):
         colnames, virtualcols, requiredcols = [], [], set()
         for col in self.tableSchema.columns:
             if col.virtual:
-                if col.valueUrl:
-                    virtualcols.append((col.header, col.valueUrl))
+                valueUrl = col.inherit('valueUrl')
+                if valueUrl and valueUrl is not INVALID:
+                    virtualcols.append((col.header, valueUrl))
             else:
                 colnames.append(col.header)
                 if col.inherit('required'):
@@ -2011,9 +2012,9 @@ class CSVW:
                 continue
 
             # Skip null values:
-            null = col.inherit_null() if col else table.inherit_null()
-            if (null and v in null) or v == "" or (v is None) or \
-                    (col and col.separator and v == []):
+            null = table.inherit_null()
+            if v is None or (col is None and v in null) or \
+                    (col and col.inherit('separator') and v == []):
                 continue
 
             triples.append(jsonld.Triple.from_col(
@@ -2026,6 +2027,6 @@ class CSVW:
                 rownum))
 
         for col in table.tableSchema.columns:
-            if col.virtual:
+            if col.virtual and col.inherit('valueUrl') and not col.suppressOutput:
                 triples.append(jsonld.Triple.from_col(table, col, row, col.header, None, rownum))
         return jsonld.group_triples(triples)
-- 
2.43.0


From e4fc21f664d72e17a83a6620360fd21e2bfb40b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 048/113] fix: use column names from the header in JSON of
 local CSV files without metadata

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index f2dc024..5957a01 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1813,7 +1813,7 @@ class CSVW:
 
             if not isinstance(md, dict):
                 raise ValueError('Invalid metadata: must be a JSON object')
-            self.no_metadata = set(md.keys()) == {'@context', 'url'}
+            self.no_metadata = set(md.keys()) - {'@base'} == {'@context', 'url'}
             if "http://www.w3.org/ns/csvw" not in md.get('@context', ''):
                 raise ValueError('Invalid or no @context')
             if 'tables' in md:
-- 
2.43.0


From 8b64091d9a6d3dcfb04e305db2ed83084679574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 049/113] fix: resolve URLs of tables in groups and local files
 against @base in the context

---
 src/csvw/metadata.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 5957a01..17ce361 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1205,18 +1205,20 @@ class TableLike(Description):
         """
         at_props = self._parent.at_props if self._parent else self.at_props
         ctxbase = None
-        for obj in self.at_props.get('context', []):
+        for obj in at_props.get('context', []):
             if isinstance(obj, dict) and '@base' in obj:
                 ctxbase = obj['@base']
         if 'base' in at_props:
-            if ctxbase:
-                # If present, its value MUST be a string that is interpreted as a URL which is
-                # resolved against the location of the metadata document to provide the
-                # **base URL** for other URLs in the metadata document.
-                return Link(ctxbase).resolve(at_props['base'])
-            return at_props['base']
-        return self._parent._fname.parent if (self._parent and self._parent._fname) else \
-            (self._fname.parent if self._fname else None)
+            base = at_props['base']
+        else:
+            base = self._parent._fname.parent if (self._parent and self._parent._fname) else \
+                (self._fname.parent if self._fname else None)
+        if ctxbase and base is not None:
+            # If present, its value MUST be a string that is interpreted as a URL which is
+            # resolved against the location of the metadata document to provide the
+            # **base URL** for other URLs in the metadata document.
+            return Link(ctxbase).resolve(base)
+        return base
 
     def template_variables(self, row: dict) -> dict:
         """
-- 
2.43.0


From 92913867998856a922ccc1b041749ab8b54147f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:44 +0000
Subject: [PATCH 050/113] fix: resolve references to dialects and schemas
 against the location of the metadata

---
 src/csvw/metadata.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 17ce361..7ad9ef9 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1026,7 +1026,7 @@ class Schema(Description):
         if isinstance(v, str):
             try:
                 # The schema is referenced with a URL
-                v = requests.get(v).json()
+                v = get_json(v)
             except:  # pragma: no cover # noqa: E722
                 return v
         if not isinstance(v, dict):
@@ -1085,6 +1085,18 @@ def valid_transformations(instance, attribute, value):
         Transformation.partition_properties(tr, type_name='Template')
 
 
+def resolve_references(data: dict, base: typing.Union[str, pathlib.Path]) -> dict:
+    """
+    Dialects and schemas may be given as URLs, relative to the location of the metadata document.
+    """
+    tables = data.get('tables')
+    for obj in [data] + (tables if isinstance(tables, list) else []):
+        for prop in ['dialect', 'tableSchema']:
+            if isinstance(obj, dict) and isinstance(obj.get(prop), str):
+                obj[prop] = str(Link(obj[prop]).resolve(base))
+    return data
+
+
 @attr.s
 class TableLike(Description):
     """
@@ -1166,7 +1178,7 @@ class TableLike(Description):
         """
         if is_url(str(fname)):
             return cls.from_url(str(fname), data=data)
-        res = cls.fromvalue(data or get_json(fname))
+        res = cls.fromvalue(resolve_references(data or get_json(fname), pathlib.Path(fname)))
         res._fname = pathlib.Path(fname)
         return res
 
@@ -1178,10 +1190,7 @@ class TableLike(Description):
         data = data or get_json(url)
         url = urlparse(url)
         data.setdefault('@base', urlunparse((url.scheme, url.netloc, url.path, '', '', '')))
-        for table in data.get('tables', [data]):
-            if isinstance(table, dict) and isinstance(table.get('tableSchema'), str):
-                table['tableSchema'] = Link(table['tableSchema']).resolve(data['@base'])
-        res = cls.fromvalue(data)
+        res = cls.fromvalue(resolve_references(data, data['@base']))
         return res
 
     def to_file(self, fname: typing.Union[str, pathlib.Path], omit_defaults=True) -> pathlib.Path:
-- 
2.43.0


From 615692dcff705cae9383faff09e34c1a968a2925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 051/113] fix: resolve URLs in linked, site-wide and overriding
 metadata against the location of the metadata

---
 src/csvw/metadata.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 7ad9ef9..0b2b5e8 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1824,6 +1824,10 @@ class CSVW:
 
             if not isinstance(md, dict):
                 raise ValueError('Invalid metadata: must be a JSON object')
+            if md_url and is_url(md_url) and is_url(url):
+                # URLs are relative to the document they are contained in.
+                md.setdefault('@base', md_url)
+            md_path = md_url if md_url and not is_url(md_url) else url
             self.no_metadata = set(md.keys()) - {'@base'} == {'@context', 'url'}
             if "http://www.w3.org/ns/csvw" not in md.get('@context', ''):
                 raise ValueError('Invalid or no @context')
@@ -1834,7 +1838,7 @@ class CSVW:
                     self.t = TableGroup.from_url(url, data=md)
                     self.t.validate_schema(strict=True)
                 else:
-                    self.t = TableGroup.from_file(url, data=md)
+                    self.t = TableGroup.from_file(md_path, data=md)
             else:
                 if is_url(url):
                     self.t = Table.from_url(url, data=md)
@@ -1844,7 +1848,7 @@ class CSVW:
                         else:
                             self.t.dialect = Dialect(header=False)
                 else:
-                    self.t = Table.from_file(url, data=md)
+                    self.t = Table.from_file(md_path, data=md)
             self.tables = self.t.tables if isinstance(self.t, TableGroup) else [self.t]
             for table in self.tables:
                 for col in table.tableSchema.columns:
@@ -1907,8 +1911,10 @@ class CSVW:
             desc = res.links.get('describedby')
             if desc and desc['type'] in [
                     "application/csvm+json", "application/ld+json", "application/json"]:
-                md = get_json(Link(desc['url']).resolve(url))
+                md_url = Link(desc['url']).resolve(url)
+                md = get_json(md_url)
                 if describes(md, url):
+                    md.setdefault('@base', md_url)
                     return md, no_header
                 else:
                     warnings.warn('Ignoring linked metadata because it does not reference the data')
@@ -1919,11 +1925,13 @@ class CSVW:
             res = requests.get(Link('/.well-known/csvm').resolve(url))
             locs = res.text if res.status_code == 200 else '{+url}-metadata.json\ncsv-metadata.json'
             for line in locs.split('\n'):
-                res = requests.get(Link(URITemplate(line).expand(url=url)).resolve(url))
+                md_url = Link(URITemplate(line).expand(url=url)).resolve(url)
+                res = requests.get(md_url)
                 if res.status_code == 200:
                     try:
                         md = res.json()
                         if describes(md, url):
+                            md.setdefault('@base', md_url)
                             return md, no_header
                         warnings.warn('Ignoring metadata because it does not reference the data')
                     except json.JSONDecodeError:
-- 
2.43.0


From b51bd6996ec6652e43806a00079676dbfca48eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 052/113] fix: read local CSV files without metadata whatever
 the characters in their path

---
 src/csvw/metadata.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 0b2b5e8..08e0d09 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1950,10 +1950,9 @@ class CSVW:
         }
         if not is_url(url or ''):
             # No metadata detected for a local CSV file. To make table reading work, we set the
-            # directory as @base and the filename as url property of the description.
-            p = pathlib.Path(url)
-            res['@base'] = str(p)
-            res['url'] = p.name
+            # filename as url property of the description. (It will be looked up in the directory
+            # of the "metadata" file, i.e. of the CSV file.)
+            res['url'] = pathlib.Path(url).name
         return res, no_header
 
     def to_json(self, minimal=False):
-- 
2.43.0


From 1201de92e5996779027a04b706200bc9066355cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 053/113] fix: resolve references to dialects and schemas
 against @base in the context

---
 src/csvw/metadata.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 08e0d09..7bdb0f7 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1085,11 +1085,24 @@ def valid_transformations(instance, attribute, value):
         Transformation.partition_properties(tr, type_name='Template')
 
 
+def context_base(context, base):
+    ctxbase = None
+    for obj in context:
+        if isinstance(obj, dict) and '@base' in obj:
+            ctxbase = obj['@base']
+    if ctxbase and base is not None:
+        # If present, its value MUST be a string that is interpreted as a URL which is
+        # resolved against the location of the metadata document to provide the
+        # **base URL** for other URLs in the metadata document.
+        return Link(ctxbase).resolve(base)
+    return base
+
+
 def resolve_references(data: dict, base: typing.Union[str, pathlib.Path]) -> dict:
     """
     Dialects and schemas may be given as URLs, relative to the location of the metadata document.
     """
-    tables = data.get('tables')
+    tables, base = data.get('tables'), context_base(data.get('@context', []), base)
     for obj in [data] + (tables if isinstance(tables, list) else []):
         for prop in ['dialect', 'tableSchema']:
             if isinstance(obj, dict) and isinstance(obj.get(prop), str):
@@ -1178,7 +1191,7 @@ class TableLike(Description):
         """
         if is_url(str(fname)):
             return cls.from_url(str(fname), data=data)
-        res = cls.fromvalue(resolve_references(data or get_json(fname), pathlib.Path(fname)))
+        res = cls.fromvalue(resolve_references(data or get_json(fname), pathlib.Path(fname).parent))
         res._fname = pathlib.Path(fname)
         return res
 
@@ -1222,12 +1235,7 @@ class TableLike(Description):
         else:
             base = self._parent._fname.parent if (self._parent and self._parent._fname) else \
                 (self._fname.parent if self._fname else None)
-        if ctxbase and base is not None:
-            # If present, its value MUST be a string that is interpreted as a URL which is
-            # resolved against the location of the metadata document to provide the
-            # **base URL** for other URLs in the metadata document.
-            return Link(ctxbase).resolve(base)
-        return base
+        return context_base(at_props.get('context', []), base)
 
     def template_variables(self, row: dict) -> dict:
         """
-- 
2.43.0


From f1c88bce6726d729a51ddf22bcb15bd5b07a1feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 054/113] fix: empty lists are undefined in URI templates

---
 src/csvw/metadata.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 7bdb0f7..97bab0f 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1226,10 +1226,6 @@ class TableLike(Description):
         The "base" to resolve relative links against.
         """
         at_props = self._parent.at_props if self._parent else self.at_props
-        ctxbase = None
-        for obj in at_props.get('context', []):
-            if isinstance(obj, dict) and '@base' in obj:
-                ctxbase = obj['@base']
         if 'base' in at_props:
             base = at_props['base']
         else:
@@ -1255,7 +1251,8 @@ class TableLike(Description):
                 col = columns.get(name)
                 datatype = col.inherit('datatype') if col else None
                 if isinstance(v, list) and (not col or col.inherit('separator')):
-                    res[name] = [canonical(vv, datatype) for vv in v if vv is not None]
+                    # Empty lists are considered undefined in RFC 6570.
+                    res[name] = [canonical(vv, datatype) for vv in v if vv is not None] or None
                 else:
                     res[name] = canonical(v, datatype)
         return res
-- 
2.43.0


From 6348e7dfa360db0c397f1360020a24104718d213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 055/113] fix: prefix modifiers work with row numbers in URI
 templates

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 97bab0f..e1042dc 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1276,7 +1276,8 @@ class TableLike(Description):
             return str(self.url.resolve(self.base))
 
         # Note: Any name, e.g. "self", may be the name of a column.
-        expanded = tmpl.expand(dict(self.template_variables(row), _row=_row, _name=_name))
+        expanded = tmpl.expand(dict(
+            self.template_variables(row), _row=None if _row is None else str(_row), _name=_name))
         for prefix, url in NAMESPACES.items():
             if tmpl.uri.startswith(prefix + ':'):
                 # If the URI Template is a QName, we expand it to a URL to prevent `Link.resolve`
-- 
2.43.0


From 7f42f7a1e3326b80f489c08dd6414fdc9861115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 056/113] fix: only the namespace is abbreviated in prefixed
 names

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index e1042dc..6b09cef 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1290,7 +1290,7 @@ class TableLike(Description):
             if qname:
                 for prefix, url in NAMESPACES.items():
                     if res.startswith(url):
-                        res = res.replace(url, prefix + ':')
+                        res = prefix + ':' + res[len(url):]
                         break
         return str(res)
 
-- 
2.43.0


From 1cf66349cbca1e17aaa30e9604cfe32a673d3f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:14 +0000
Subject: [PATCH 057/113] fix: store times in SQLite

---
 src/csvw/db.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 8a03c62..a01c0c1 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -79,6 +79,16 @@ class ColumnTranslator(typing.Protocol):
         ...  # pragma: no cover
 
 
+def text_converters(csvw_type: str) -> typing.Tuple[typing.Callable, typing.Callable]:
+    """
+    :return: Functions to convert values of a datatype to text and vice versa.
+    """
+    datatype = DATATYPES[csvw_type]
+    # Times cannot be read or written without format.
+    kw = csvw.Datatype(base=csvw_type).derived_description if csvw_type == 'time' else {}
+    return functools.partial(datatype.to_string, **kw), functools.partial(datatype.to_python, **kw)
+
+
 def quoted(*names):
     return ','.join('`{0}`'.format(name) for name in names)
 
@@ -142,8 +152,7 @@ class ColSpec:
             self.db_type, self.convert, self.read = TYPE_MAP[self.csvw_type]
         else:
             self.db_type = 'TEXT'
-            self.convert = DATATYPES[self.csvw_type].to_string
-            self.read = DATATYPES[self.csvw_type].to_python
+            self.convert, self.read = text_converters(self.csvw_type)
         if self.separator and self.db_type != 'TEXT':
             self.db_type = 'TEXT'
 
@@ -452,11 +461,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                 # Assemble the conversion dictionary:
                 for col in table.columns:
                     convert[self.translate(tname, col.name)] = [col.name, identity]
-                    if col.csvw_type in TYPE_MAP:
-                        convert[self.translate(tname, col.name)][1] = TYPE_MAP[col.csvw_type][2]
-                    else:
-                        convert[self.translate(tname, col.name)][1] = \
-                            DATATYPES[col.csvw_type].to_python
+                    convert[self.translate(tname, col.name)][1] = col.read
                     if col.separator:
                         if col.csvw_type == 'string':
                             seps[self.translate(tname, col.name)] = col.separator
-- 
2.43.0


From d00b3abac144c818e05774a48671f38a52dc8bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:14 +0000
Subject: [PATCH 058/113] fix: store lists of any datatype in SQLite

---
 src/csvw/db.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index a01c0c1..21d0079 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -156,6 +156,21 @@ class ColSpec:
         if self.separator and self.db_type != 'TEXT':
             self.db_type = 'TEXT'
 
+    def dumps(self, items: list) -> str:
+        """
+        List-valued columns of datatypes other than `string` are serialized as JSON.
+        """
+        to_string, _ = text_converters(self.csvw_type)
+        return json.dumps([
+            v if v is None or isinstance(v, (str, bool, int, float)) or self.csvw_type == 'json'
+            else to_string(v) for v in items])
+
+    def loads(self, s: str) -> list:
+        _, to_python = text_converters(self.csvw_type)
+        return [
+            to_python(v) if isinstance(v, str) and self.csvw_type != 'json' else v
+            for v in json.loads(s)]
+
     def check(self, translate: ColumnTranslator) -> typing.Optional[str]:
         """
         We try to convert as many data constraints as possible into SQLite CHECK constraints.
@@ -456,6 +471,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                 # Thus we need to convert on write **and** read!
                 #
                 convert, seps, refs = {}, {}, collections.defaultdict(dict)
+                specs = {self.translate(tname, c.name): c for c in self.tdict[tname].columns}
                 table = self.tdict[tname]  # The TableSpec object.
 
                 # Assemble the conversion dictionary:
@@ -483,7 +499,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                             elif not v:
                                 d[k] = []
                             elif seps[k] == 'json':
-                                d[k] = json.loads(v)
+                                d[k] = specs[k].loads(v)
                             else:
                                 d[k] = [convert[k][1](v_) for v_ in (v or '').split(seps[k])]
                         else:
@@ -571,7 +587,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                                     v = (col.separator or ';').join(
                                         col.convert(vv) or '' for vv in v)
                                 else:
-                                    v = json.dumps(v)
+                                    v = col.dumps(v)
                             else:
                                 v = col.convert(v) if v is not None else None
                             if i == 0:
-- 
2.43.0


From 0b4b238bac9d8ee3553095e2cb15d9c505fd0ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:14 +0000
Subject: [PATCH 059/113] fix: constraints on the items of lists do not apply
 to lists in SQLite

---
 src/csvw/db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 21d0079..fb6e08c 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -178,7 +178,8 @@ class ColSpec:
         :param translate: Callable to translate column names between CSVW metadata and DB schema.
         :return: A string suitable as argument of an SQL CHECK constraint.
         """
-        if not self.csvw:
+        if not self.csvw or self.separator:
+            # Note: The constraints on list-valued columns apply to each item of the list.
             return
         c, cname = self.csvw, translate(self.name)
         constraints = []
-- 
2.43.0


From 32a427d776f92dbd198b83c850f5459ccf90462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 060/113] fix: decimals read from SQLite are the ones which
 were written

---
 src/csvw/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index fb6e08c..ed0d28f 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -61,7 +61,7 @@ TYPE_MAP = {
     'decimal': (
         'REAL',
         lambda s: s if s is None else float(s),
-        lambda s: s if s is None else decimal.Decimal(s)),
+        lambda s: s if s is None else decimal.Decimal(repr(s))),
     'hexBinary': (
         'BLOB',
         identity,
-- 
2.43.0


From e90f7c5d3922719b907b7f76efeb9d2a4cfed076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 061/113] fix: keep nulls in lists of strings in SQLite

---
 src/csvw/db.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index ed0d28f..71cbd28 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -146,6 +146,7 @@ class ColSpec:
     read = attr.ib(default=None)
     required = attr.ib(default=False)
     csvw = attr.ib(default=None)
+    null = attr.ib(default=attr.Factory(lambda: ['']))
 
     def __attrs_post_init__(self):
         if self.csvw_type in TYPE_MAP:
@@ -284,6 +285,7 @@ class TableSpec(object):
                     separator=c.inherit('separator'),
                     required=c.inherit('required'),
                     csvw=c.inherit('datatype'),
+                    null=c.inherit_null(),
                 ))
         return spec
 
@@ -502,7 +504,9 @@ FROM {2} {3} GROUP BY {0}""".format(
                             elif seps[k] == 'json':
                                 d[k] = specs[k].loads(v)
                             else:
-                                d[k] = [convert[k][1](v_) for v_ in (v or '').split(seps[k])]
+                                d[k] = [
+                                    None if v_ in specs[k].null else convert[k][1](v_)
+                                    for v_ in v.split(seps[k])]
                         else:
                             d[k] = convert[k][1](v) if v is not None else None
                     pk = d[self.translate(tname, table.primary_key[0])] \
@@ -585,8 +589,9 @@ FROM {2} {3} GROUP BY {0}""".format(
                             if isinstance(v, list):
                                 # Note: This assumes list-valued columns are of datatype string!
                                 if col.csvw_type == 'string':
+                                    null = col.null[0] if col.null else ''
                                     v = (col.separator or ';').join(
-                                        col.convert(vv) or '' for vv in v)
+                                        null if vv is None else col.convert(vv) for vv in v)
                                 else:
                                     v = col.dumps(v)
                             else:
-- 
2.43.0


From a9d95cae3bbc47a34cf5b3e22c6939a425ad5ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 062/113] fix: write rows with any order of keys to SQLite

---
 src/csvw/db.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 71cbd28..9b98da0 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -562,12 +562,12 @@ FROM {2} {3} GROUP BY {0}""".format(
             for t in self.tables:
                 if t.name not in items:
                     continue
-                rows, keys = [], []
+                rows = []
                 cols = {c.name: c for c in t.columns}
-                for i, row in enumerate(items[t.name]):
+                for row in items[t.name]:
                     pk = row[t.primary_key[0]] \
                         if t.primary_key and len(t.primary_key) == 1 else None
-                    values = []
+                    values = {}
                     for k, v in row.items():
                         if k in t.many_to_many:
                             assert pk
@@ -596,11 +596,10 @@ FROM {2} {3} GROUP BY {0}""".format(
                                     v = col.dumps(v)
                             else:
                                 v = col.convert(v) if v is not None else None
-                            if i == 0:
-                                keys.append(col.name)
-                            values.append(v)
-                    rows.append(tuple(values))
-                insert(db, self.translate, t.name, keys, *rows)
+                            values[col.name] = v
+                    # Note: The order of keys - and the keys themselves - may differ between rows.
+                    rows.append(tuple(values.get(k) for k in cols))
+                insert(db, self.translate, t.name, list(cols), *rows)
 
             for atkey, rows in refs.items():
                 insert(db, self.translate, atkey[0], atkey[1:], *rows)
-- 
2.43.0


From 1929a42a1006535bdfa70fbb49d8809ff0d65f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 063/113] fix: keep the order of columns in composite foreign
 keys in SQLite

---
 src/csvw/db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 9b98da0..6c992b8 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -272,9 +272,9 @@ class TableSpec(object):
                     )
                 elif not (drop_self_referential_fks and fk.reference.resource.string == spec.name):
                     spec.foreign_keys.append((
-                        sorted(fk.columnReference),
+                        fk.columnReference,
                         fk.reference.resource.string,
-                        sorted(fk.reference.columnReference),
+                        fk.reference.columnReference,
                     ))
         for c in table.tableSchema.columns:
             if c.header not in spec.many_to_many:
-- 
2.43.0


From 97040f8c9b97af883a91cd272649e82e521fa92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 064/113] fix: keep list-valued foreign keys of any datatype
 and with any characters in SQLite

---
 src/csvw/db.py | 48 +++++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 6c992b8..8a72d10 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -252,6 +252,8 @@ class TableSpec(object):
         """
         spec = cls(name=table.local_name, primary_key=table.tableSchema.primaryKey)
         list_valued = {c.header for c in table.tableSchema.columns if c.separator}
+        datatypes = {c.header: c.inherit('datatype') for c in table.tableSchema.columns}
+        datatypes = {name: dt.base for name, dt in datatypes.items() if dt}
         for fk in table.tableSchema.foreignKeys:
             # We only support Foreign Key references between tables!
             if not fk.reference.schemaReference:
@@ -269,6 +271,9 @@ class TableSpec(object):
                         spec.primary_key[0],
                         fk.reference.resource.string,
                         fk.reference.columnReference[0],
+                        atype=datatypes.get(spec.primary_key[0]),
+                        # Columns have the same datatype as the ones they refer to.
+                        btype=datatypes.get(fk.columnReference[0]),
                     )
                 elif not (drop_self_referential_fks and fk.reference.resource.string == spec.name):
                     spec.foreign_keys.append((
@@ -290,7 +295,7 @@ class TableSpec(object):
         return spec
 
     @classmethod
-    def association_table(cls, atable, apk, btable, bpk) -> 'TableSpec':
+    def association_table(cls, atable, apk, btable, bpk, atype=None, btype=None) -> 'TableSpec':
         """
         List-valued foreignKeys are supported as follows: For each pair of tables related through a
         list-valued foreign key, an association table is created. To make it possible to distinguish
@@ -298,8 +303,8 @@ class TableSpec(object):
         a column `context`, which stores the name of the foreign key column from which a row in the
         assocation table was created.
         """
-        afk = ColSpec('{0}_{1}'.format(atable, apk))
-        bfk = ColSpec('{0}_{1}'.format(btable, bpk))
+        afk = ColSpec('{0}_{1}'.format(atable, apk), csvw_type=atype)
+        bfk = ColSpec('{0}_{1}'.format(btable, bpk), csvw_type=btype)
         if afk.name == bfk.name:
             afk.name += '_1'
             bfk.name += '_2'
@@ -431,21 +436,17 @@ class Database(object):
         return self._connection
 
     def select_many_to_many(self, db, table, context) -> dict:
+        sql, params = "SELECT {0}, {1}, COALESCE({2}, '') FROM {3}".format(
+            *[quoted(self.translate(table.name, c.name)) for c in table.columns[:3]],
+            quoted(self.translate(table.name))), []
         if context is not None:
-            context_sql = "WHERE context = '{0}'".format(context)
-        else:
-            context_sql = ''
-        sql = """\
-SELECT {0}, group_concat({1}, ' '), group_concat(COALESCE(context, ''), '||')
-FROM {2} {3} GROUP BY {0}""".format(
-                quoted(self.translate(table.name, table.columns[0].name)),
-                quoted(self.translate(table.name, table.columns[1].name)),
-                quoted(self.translate(table.name)),
-                context_sql)
-        cu = db.execute(sql)
-        return {
-            r[0]: [(k, v) if context is None else k
-                   for k, v in zip(r[1].split(), r[2].split('||'))] for r in cu.fetchall()}
+            sql += ' WHERE {0} = ?'.format(quoted(self.translate(table.name, 'context')))
+            params = [context]
+        res, read = collections.OrderedDict(), table.columns[1].read
+        for pk, fk, ctx in db.execute(sql + ' ORDER BY rowid', params).fetchall():
+            fk = fk if fk is None else read(fk)
+            res.setdefault(pk, []).append((fk, ctx) if context is None else fk)
+        return res
 
     def separator(self, tname: str, cname: str) -> typing.Optional[str]:
         """
@@ -509,9 +510,10 @@ FROM {2} {3} GROUP BY {0}""".format(
                                     for v_ in v.split(seps[k])]
                         else:
                             d[k] = convert[k][1](v) if v is not None else None
-                    pk = d[self.translate(tname, table.primary_key[0])] \
+                    # Note: The value of the primary key as it is stored in the database.
+                    pk = row[cols.index(self.translate(tname, table.primary_key[0]))] \
                         if table.primary_key and len(table.primary_key) == 1 else None
-                    d.update({k: [] for k in table.many_to_many})
+                    d.update({self.translate(tname, k): [] for k in table.many_to_many})
                     d.update(refs.get(pk, {}))
                     res[self.translate(tname)].append(d)
         return res
@@ -570,14 +572,18 @@ FROM {2} {3} GROUP BY {0}""".format(
                     values = {}
                     for k, v in row.items():
                         if k in t.many_to_many:
-                            assert pk
+                            assert pk is not None
                             at = t.many_to_many[k]
+                            convert = [c.convert for c in at.columns[:2]]
                             atkey = tuple([at.name] + [c.name for c in at.columns])
                             # We distinguish None - meaning NULL - and [] - meaning no items - as
                             # values of list-valued columns.
                             for vv in (v or []):
                                 fkey, context = self.association_table_context(t, k, vv)
-                                refs[atkey].append((pk, fkey, context))
+                                refs[atkey].append((
+                                    convert[0](pk),
+                                    fkey if fkey is None else convert[1](fkey),
+                                    context))
                         else:
                             if k not in cols:
                                 if _skip_extra:
-- 
2.43.0


From 6a93b5f34bad604452790fed2de0a5f77a86ac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 065/113] fix: create constraints in SQLite which are valid SQL
 and enforce what is declared

---
 src/csvw/db.py | 72 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 25 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 8a72d10..1464211 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -22,8 +22,9 @@ a :class:`Database`.
 
 SQLite support has the following limitations:
 
-- regex constraints on strings (as specified via a :class:`csvw.Datatype`'s format attribute) are
-  not enforced by the database.
+- regex constraints on strings (as specified via a :class:`csvw.Datatype`'s format attribute) and
+  bounds of durations are not enforced by the database.
+- Constraints on the items of list-valued columns are not enforced by the database.
 """
 import json
 import typing
@@ -182,32 +183,53 @@ class ColSpec:
         if not self.csvw or self.separator:
             # Note: The constraints on list-valued columns apply to each item of the list.
             return
-        c, cname = self.csvw, translate(self.name)
+        c, cname = self.csvw, '`{0}`'.format(translate(self.name))
         constraints = []
-        if (c.minimum is not None) or (c.maximum is not None):
-            func = {
-                'date': 'date',
-                'datetime': 'datetime',
-            }.get(self.csvw_type)
-            if c.minimum is not None:
-                if func:
-                    constraints.append("{2}(`{0}`) >= {2}('{1}')".format(cname, c.minimum, func))
-                else:
-                    constraints.append('`{0}` >= {1}'.format(cname, c.minimum))
-            if c.maximum is not None:
-                if func:
-                    constraints.append("{2}(`{0}`) <= {2}('{1}')".format(cname, c.maximum, func))
-                else:
-                    constraints.append('`{0}` <= {1}'.format(cname, c.maximum))
-        elif any(cc is not None for cc in [c.length, c.minLength, c.maxLength]):
-            if c.length:
-                constraints.append('length(`{0}`) = {1}'.format(cname, c.length))
-            if c.minLength:
-                constraints.append('length(`{0}`) >= {1}'.format(cname, c.minLength))
-            if c.maxLength:
-                constraints.append('length(`{0}`) <= {1}'.format(cname, c.maxLength))
+        for op, bounds in [
+            ('>=', [c.minimum, c.minInclusive]),
+            ('>', [c.minExclusive]),
+            ('<=', [c.maximum, c.maxInclusive]),
+            ('<', [c.maxExclusive]),
+        ]:
+            for bound in bounds:
+                if bound is not None:
+                    value, bound = self.comparable(cname, bound)
+                    if value:
+                        constraints.append('{0} {1} {2}'.format(value, op, bound))
+        # Note: The length of binary data is the number of bytes.
+        length = "length({0})"
+        if isinstance(c.basetype(), DATATYPES['base64Binary']):
+            length = "(length(rtrim({0}, '=')) * 3 / 4)"
+        if self.csvw_type != 'json':
+            for op, n in [('=', c.length), ('>=', c.minLength), ('<=', c.maxLength)]:
+                if n is not None:
+                    constraints.append('{0} {1} {2}'.format(length.format(cname), op, n))
         return ' AND '.join(constraints)
 
+    def comparable(self, cname: str, bound) -> typing.Tuple[typing.Optional[str], str]:
+        """
+        :param cname: Quoted name of the column.
+        :param bound: Value to which the values in the column must be compared.
+        :return: A pair of SQL expressions which can be compared. If comparing values of the \
+        datatype is not possible in SQLite, the first one is `None`.
+        """
+        datatype = self.csvw.basetype()
+        if isinstance(datatype, DATATYPES['datetime']):
+            date = "'1972-12-31T' || " if self.csvw_type == 'time' else ''
+            return tuple(
+                "strftime('%Y-%m-%d %H:%M:%f', {0})".format(expr)
+                for expr in (date + cname, "{0}'{1}'".format(date, self.convert(bound))))
+        if isinstance(datatype, DATATYPES['duration']):
+            return None, ''
+        if isinstance(bound, float):
+            bound = repr(bound).replace('inf', '9e999')
+        elif isinstance(bound, decimal.Decimal):
+            bound = '{0:f}'.format(bound)
+        if self.db_type == 'TEXT':
+            cname = "CASE {0} WHEN 'INF' THEN 9e999 WHEN '-INF' THEN -9e999 " \
+                "ELSE CAST({0} AS NUMERIC) END".format(cname)
+        return cname, str(bound)
+
     def sql(self, translate: ColumnTranslator) -> str:
         _check = self.check(translate)
         return '`{0}` {1}{2}{3}'.format(
-- 
2.43.0


From 589abcf9fdceec0df315f597bbc5032da33530ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 066/113] fix: any number of tables can be loaded into SQLite

---
 src/csvw/db.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 1464211..a7d01a3 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -380,16 +380,17 @@ def schema(tg: csvw.TableGroup,
 
     # We must determine the order in which tables must be created!
     ordered = collections.OrderedDict()
-    i = 0
 
     # We loop through the tables repeatedly, and whenever we find one, which has all
     # referenced tables already in ordered, we move it from tables to ordered.
-    while tables and i < 100:
-        i += 1
+    found = True
+    while tables and found:
+        found = False
         for table in list(tables.keys()):
             if all((ref[1] in ordered) or ref[1] == table for ref in tables[table].foreign_keys):
                 # All referenced tables are already created (or self-referential).
                 ordered[table] = tables.pop(table)
+                found = True
                 break
     if tables:  # pragma: no cover
         raise ValueError('there seem to be cyclic dependencies between the tables')
-- 
2.43.0


From 0897fe4ab536808cc88c4ead58eb010011de6d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:03 +0000
Subject: [PATCH 067/113] fix: references to columns which are not the primary
 key work in SQLite

---
 src/csvw/db.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index a7d01a3..ed93ff9 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -258,6 +258,7 @@ class TableSpec(object):
     foreign_keys = attr.ib(default=attr.Factory(list))
     many_to_many = attr.ib(default=attr.Factory(collections.OrderedDict))
     primary_key = attr.ib(default=None)
+    unique = attr.ib(default=attr.Factory(list))
 
     @classmethod
     def from_table_metadata(cls,
@@ -349,6 +350,8 @@ class TableSpec(object):
         if self.primary_key:
             clauses.append('PRIMARY KEY({0})'.format(quoted(
                 *[col_translate(c) for c in self.primary_key])))
+        for cols in self.unique:
+            clauses.append('UNIQUE({0})'.format(quoted(*[col_translate(c) for c in cols])))
         for fk, ref, refcols in self.foreign_keys:
             clauses.append('FOREIGN KEY({0}) REFERENCES {1}({2}) ON DELETE CASCADE'.format(
                 quoted(*[col_translate(c) for c in fk]),
@@ -378,6 +381,13 @@ def schema(tg: csvw.TableGroup,
         for at in t.many_to_many.values():
             tables[at.name] = at
 
+    # Columns can only be referenced in SQLite if they are known to be unique.
+    for t in tables.values():
+        for _, ref, cols in t.foreign_keys:
+            unique = [tables[ref].primary_key or []] + tables[ref].unique if ref in tables else []
+            if unique and not any(set(cols) == set(u) for u in unique):
+                tables[ref].unique.append(cols)
+
     # We must determine the order in which tables must be created!
     ordered = collections.OrderedDict()
 
-- 
2.43.0


From b3221e092a81871b5652a4e3d3a7bc15019dd589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 068/113] fix: missing values of integer primary keys are not
 made up in SQLite

---
 src/csvw/db.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index ed93ff9..dbf6594 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -315,6 +315,10 @@ class TableSpec(object):
                     csvw=c.inherit('datatype'),
                     null=c.inherit_null(),
                 ))
+                if spec.columns[-1].db_type == 'INTEGER' and spec.primary_key == [c.header]:
+                    # An `INTEGER PRIMARY KEY` is an alias for the row ID, i.e. SQLite would make up
+                    # missing values.
+                    spec.columns[-1].db_type = 'INT'
         return spec
 
     @classmethod
-- 
2.43.0


From 50883c96eac2e11016c9d2b12b5020059f718905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 069/113] fix: enforce required constraints of frictionless
 fields

---
 src/csvw/frictionless.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 3bd0200..1254c97 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -70,7 +70,9 @@ def convert_column_spec(spec):
         res['propertyUrl'] = spec['rdfType']
 
     constraints = spec.get('constraints', {})
-    for prop in ['required', 'minLength', 'maxLength', 'minimum', 'maximum']:
+    if 'required' in constraints:
+        res['required'] = constraints['required']
+    for prop in ['minLength', 'maxLength', 'minimum', 'maximum']:
         if prop in constraints:
             res['datatype'][prop] = constraints[prop]
         if ('pattern' in constraints) and ('format' not in res['datatype']):
-- 
2.43.0


From b33b34b68ba76e9614b5d66c60ebb2df5c0a56ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:53 +0000
Subject: [PATCH 070/113] fix: accept the directory of a data package as string

---
 src/csvw/frictionless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 1254c97..fd51530 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -164,7 +164,7 @@ class DataPackage:
             # already a parsed JSON object
             self.dir = pathlib.Path(directory or '.')
         elif isinstance(spec, pathlib.Path):
-            self.dir = directory or spec.parent
+            self.dir = pathlib.Path(directory or spec.parent)
             spec = json.loads(spec.read_text(encoding='utf8'))
         else:  # assume a JSON formatted string
             spec = json.loads(spec)
-- 
2.43.0


From 8108603f9f702a9871f855f8f7a1cb337f1a7d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:02 +0000
Subject: [PATCH 071/113] fix: bare numbers in frictionless fields are the ones
 which are supported

---
 src/csvw/frictionless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index fd51530..21ceefc 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -44,7 +44,7 @@ def convert_column_spec(spec):
                 res['datatype']['format'] = '{}|{}'.format(
                     spec['trueValues'][0], spec['falseValues'][0])
             if spec['type'] in ['number', 'integer']:
-                if spec.get('bareNumber') is True:  # pragma: no cover
+                if spec.get('bareNumber') is False:  # pragma: no cover
                     raise NotImplementedError(
                         'bareNumber is not supported in CSVW. It may be possible to translate to '
                         'a number pattern, though. See '
-- 
2.43.0


From 9deb5b55f0fc0c3092be2f7e90307fb37116b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 072/113] fix: keep properties of frictionless dialects next to
 the nested csv properties

---
 src/csvw/frictionless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 21ceefc..a2c8cf3 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -134,7 +134,7 @@ def convert_dialect(rsc):
     d = rsc.get('dialect', {})
     # Work around https://github.com/frictionlessdata/frictionless-py/issues/1506
     if 'csv' in d:
-        d = d['csv']
+        d = dict(d, **d['csv'])
     res = {}
     if d.get('delimiter'):
         res['delimiter'] = d['delimiter']
-- 
2.43.0


From 1ab03ad8055618549ddb27c3ebb2bd10535a7869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 073/113] fix: integers with . as group character in
 frictionless fields

---
 src/csvw/frictionless.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index a2c8cf3..163a16e 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -55,6 +55,9 @@ def convert_column_spec(spec):
                     for p in ['decimalChar', 'groupChar']:
                         if spec.get(p):
                             res['datatype']['format'][p] = spec[p]
+                    if res['datatype']['format'].get('groupChar') == '.':
+                        # The decimalChar of integers may be missing, but must be different.
+                        res['datatype']['format'].setdefault('decimalChar', ',')
         elif spec['type'] in ['object', 'array']:
             res['datatype']['base'] = 'json'
             res['datatype']['dc:format'] = 'application/json'
-- 
2.43.0


From 84ef08ad5ffb4c161474e605ece2e4e971827fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:33 +0000
Subject: [PATCH 074/113] fix: packages with bounds of years are converted

---
 src/csvw/frictionless.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 163a16e..5f129b4 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -10,6 +10,7 @@ CSVW metadata to "raw" CSV tables.
 """
 import json
 import pathlib
+import warnings
 
 
 def convert_column_spec(spec):
@@ -77,6 +78,9 @@ def convert_column_spec(spec):
         res['required'] = constraints['required']
     for prop in ['minLength', 'maxLength', 'minimum', 'maximum']:
         if prop in constraints:
+            if prop in ['minimum', 'maximum'] and spec.get('type') in typemap:
+                warnings.warn('Bounds of years are not supported in CSVW: {}'.format(spec['name']))
+                continue
             res['datatype'][prop] = constraints[prop]
         if ('pattern' in constraints) and ('format' not in res['datatype']):
             res['datatype']['format'] = constraints['pattern']
-- 
2.43.0


From 9ca8e94ee7dd0cb5984cc6c2f90b1795325b348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 075/113] fix: booleans with only true values or only false
 values in frictionless fields

---
 src/csvw/frictionless.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 5f129b4..22eaf1a 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -41,9 +41,10 @@ def convert_column_spec(spec):
             res['datatype']['base'] = spec['type']
             if spec['type'] == 'string' and spec.get('format'):
                 res['datatype']['dc:format'] = spec['format']
-            if spec['type'] == 'boolean' and spec.get('trueValues') and spec.get('falseValues'):
+            if spec['type'] == 'boolean' and (spec.get('trueValues') or spec.get('falseValues')):
                 res['datatype']['format'] = '{}|{}'.format(
-                    spec['trueValues'][0], spec['falseValues'][0])
+                    (spec.get('trueValues') or ['true'])[0],
+                    (spec.get('falseValues') or ['false'])[0])
             if spec['type'] in ['number', 'integer']:
                 if spec.get('bareNumber') is False:  # pragma: no cover
                     raise NotImplementedError(
-- 
2.43.0


From 178af60e32bd0871698cd5de6d268d23ae054384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:29 +0000
Subject: [PATCH 076/113] fix: ignore JSON documents which do not describe
 tables when locating metadata

---
 src/csvw/metadata.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 6b09cef..1c89678 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1901,10 +1901,12 @@ class CSVW:
         `§5. Locating Metadata <https://w3c.github.io/csvw/syntax/#locating-metadata>`_
         """
         def describes(md, url):
-            for table in md.get('tables', [md]):
+            tables = md.get('tables', [md]) if isinstance(md, dict) else []
+            for table in tables if isinstance(tables, list) else []:
+                turl = table.get('url') if isinstance(table, dict) else None
                 # FIXME: We check whether the metadata describes a CSV file just superficially,
                 # by comparing the last path components of the respective URLs.
-                if url.split('/')[-1] == table['url'].split('/')[-1]:
+                if isinstance(turl, str) and url.split('/')[-1] == turl.split('/')[-1]:
                     return True
             return False
 
-- 
2.43.0


From 986382783acec43906039ce9d020b43351fcd73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:29 +0000
Subject: [PATCH 077/113] fix: links to metadata which is missing or broken, or
 without type, are no errors

---
 src/csvw/metadata.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 1c89678..053db9e 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1910,6 +1910,14 @@ class CSVW:
                     return True
             return False
 
+        def read_json(md_url):
+            res = requests.get(md_url)
+            if res.status_code == 200:
+                try:
+                    return res.json()
+                except ValueError:
+                    pass
+
         no_header = False
         if url and is_url(url):
             # §5.2 Link Header
@@ -1917,14 +1925,14 @@ class CSVW:
             res = requests.head(url)
             no_header = bool(re.search(r'header\s*=\s*absent', res.headers.get('content-type', '')))
             desc = res.links.get('describedby')
-            if desc and desc['type'] in [
+            if desc and desc.get('type') in [
                     "application/csvm+json", "application/ld+json", "application/json"]:
                 md_url = Link(desc['url']).resolve(url)
-                md = get_json(md_url)
+                md = read_json(md_url)
                 if describes(md, url):
                     md.setdefault('@base', md_url)
                     return md, no_header
-                else:
+                elif md is not None:
                     warnings.warn('Ignoring linked metadata because it does not reference the data')
 
             # §5.3 Default Locations and Site-wide Location Configuration
@@ -1934,16 +1942,12 @@ class CSVW:
             locs = res.text if res.status_code == 200 else '{+url}-metadata.json\ncsv-metadata.json'
             for line in locs.split('\n'):
                 md_url = Link(URITemplate(line).expand(url=url)).resolve(url)
-                res = requests.get(md_url)
-                if res.status_code == 200:
-                    try:
-                        md = res.json()
-                        if describes(md, url):
-                            md.setdefault('@base', md_url)
-                            return md, no_header
-                        warnings.warn('Ignoring metadata because it does not reference the data')
-                    except json.JSONDecodeError:
-                        pass
+                md = read_json(md_url)
+                if describes(md, url):
+                    md.setdefault('@base', md_url)
+                    return md, no_header
+                elif md is not None:
+                    warnings.warn('Ignoring metadata because it does not reference the data')
 
             # §5.4 Embedded Metadata
             # https://w3c.github.io/csvw/syntax/#embedded-metadata
-- 
2.43.0


From 3f40d2de2d5cfa9ae8e86bbb0c8c8c32175ea37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:29 +0000
Subject: [PATCH 078/113] fix: line ends and blank lines in site-wide metadata
 configuration

---
 src/csvw/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 053db9e..4e106c5 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1941,7 +1941,9 @@ class CSVW:
             res = requests.get(Link('/.well-known/csvm').resolve(url))
             locs = res.text if res.status_code == 200 else '{+url}-metadata.json\ncsv-metadata.json'
             for line in locs.split('\n'):
-                md_url = Link(URITemplate(line).expand(url=url)).resolve(url)
+                if not line.strip():
+                    continue
+                md_url = Link(URITemplate(line.strip()).expand(url=url)).resolve(url)
                 md = read_json(md_url)
                 if describes(md, url):
                     md.setdefault('@base', md_url)
-- 
2.43.0


From 0914e64a69e3275a2023f773c15f2060de017e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:51 +0000
Subject: [PATCH 079/113] fix: descriptions of other files are ignored for
 local files, and the one of the directory is found

---
 src/csvw/metadata.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4e106c5..cc3b99d 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1956,8 +1956,14 @@ class CSVW:
             # We only recognize column names read from the first row of a CSV file.
         elif url:
             # Default Locations for local files:
-            if pathlib.Path(str(url) + '-metadata.json').exists():
-                return get_json(pathlib.Path(str(url) + '-metadata.json')), no_header
+            path = pathlib.Path(url)
+            for md_path in [pathlib.Path(str(url) + '-metadata.json'),
+                            path.parent / 'csv-metadata.json']:
+                if md_path.exists():
+                    md = get_json(md_path)
+                    if describes(md, path.name):
+                        return md, no_header
+                    warnings.warn('Ignoring metadata because it does not reference the data')
         res = {
             '@context': "http://www.w3.org/ns/csvw",
             'url': url,
-- 
2.43.0


From 26c43bcd5b43f9de3ea4d58765948b1802a7035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 080/113] fix: copy groups of tables with zipped data or data
 in subdirectories

---
 src/csvw/metadata.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index cc3b99d..f0baae0 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1687,7 +1687,15 @@ class TableGroup(TableLike):
         """
         dest = pathlib.Path(dest)
         for table in self.tables:
-            shutil.copy(str(table.url.resolve(self.base)), str(table.url.resolve(dest)))
+            src, target = table.url.resolve(self.base), table.url.resolve(dest)
+            target.parent.mkdir(parents=True, exist_ok=True)
+            zipped = src.parent / (src.name + '.zip')
+            if zipped.exists() and not src.exists():
+                shutil.copy(str(zipped), str(target.parent / zipped.name))
+                if target.exists():  # Data which is not zipped would take precedence.
+                    target.unlink()
+            else:
+                shutil.copy(str(src), str(target))
         self._fname = dest / self._fname.name
         self.to_file(self._fname)
 
-- 
2.43.0


From 8d72a1209a3514e86dd179016d0244fcb196fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 081/113] fix: data is written to directories which do not
 exist yet instead of their parents

---
 src/csvw/metadata.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index f0baae0..9949f21 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1363,7 +1363,13 @@ class Table(TableLike):
         dialect = self._get_dialect()
         non_virtual_cols = [c for c in self.tableSchema.columns if not c.virtual]
         if fname is DEFAULT:
-            fname = self.url.resolve(pathlib.Path(base) if base else self.base)
+            if base:
+                # Note: Relative URLs are resolved against the parent if base is not a directory.
+                base = pathlib.Path(base)
+                base.mkdir(parents=True, exist_ok=True)
+            fname = self.url.resolve(base or self.base)
+            if base:
+                pathlib.Path(fname).parent.mkdir(parents=True, exist_ok=True)
 
         rowcount = 0
         with UnicodeWriter(fname, dialect=dialect) as writer:
@@ -1673,6 +1679,7 @@ class TableGroup(TableLike):
         table URL is specified as keyword.
         """
         fname = pathlib.Path(fname)
+        fname.parent.mkdir(parents=True, exist_ok=True)
         for tname, rows in items.items():
             self.tabledict[tname].write(rows, base=fname.parent, strict=strict, _zipped=_zipped)
         self.to_file(fname)
@@ -1686,6 +1693,7 @@ class TableGroup(TableLike):
         :return:
         """
         dest = pathlib.Path(dest)
+        dest.mkdir(parents=True, exist_ok=True)
         for table in self.tables:
             src, target = table.url.resolve(self.base), table.url.resolve(dest)
             target.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 1457124b9618d02e630e5a09ab067edef5193e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:32 +0000
Subject: [PATCH 082/113] fix: csvwdescribe passes delimiters as valid JSON

---
 src/csvw/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/__main__.py b/src/csvw/__main__.py
index 3f599f8..cfb0fe4 100644
--- a/src/csvw/__main__.py
+++ b/src/csvw/__main__.py
@@ -41,7 +41,7 @@ def csvwdescribe(args=None, test=False):
     )
     fargs = ['describe', '--json']
     if args.delimiter:
-        fargs.extend(['--dialect', '{"delimiter": "%s"}' % args.delimiter])
+        fargs.extend(['--dialect', json.dumps({'delimiter': args.delimiter})])
     onefile = False
     if len(args.csv) == 1 and '*' not in args.csv[0]:
         onefile = True
-- 
2.43.0


From f5be3d0b9ebcc77b152b104430b4a7e5ff49e7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 083/113] fix: titles may be empty lists

---
 src/csvw/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 9949f21..fdf0e8a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -374,10 +374,10 @@ class NaturalLanguage(collections.OrderedDict):
         self[lang].append(string)
 
     def __str__(self):
-        return self.getfirst() or next(iter(self.values()))[0]
+        return self.getfirst() or next((s for strings in self.values() for s in strings), '')
 
     def getfirst(self, lang=None):
-        return self.get(lang, [None])[0]
+        return next(iter(self.get(lang, [])), None)
 
 
 def hashable(v):
-- 
2.43.0


From 6bbde2f3abd17d9afc0a0728f936bc3940908dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 084/113] fix: titles in the inherited language of a table are
 compatible

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index fdf0e8a..683904f 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1527,7 +1527,7 @@ class Table(TableLike):
                             if (not col.name) and not res:
                                 warnings.warn('Incompatible table models')
                             if isinstance(res, str) and res.split('-')[0] not in [
-                                    'und', (self.lang or 'und').split('-')[0]]:
+                                    'und', (self.inherit('lang') or 'und').split('-')[0]]:
                                 warnings.warn('Incompatible column titles')
                 except StopIteration:  # pragma: no cover
                     return
-- 
2.43.0


From 598b0afc7b2f42967e7a9f8838c84d79c402fb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:02 +0000
Subject: [PATCH 085/113] fix: datasets without dialect can be described in
 Markdown

---
 src/csvw/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index 111e52a..3c3dd79 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -221,7 +221,7 @@ def metadata2markdown(tg, link_files=False) -> str:
         res.append('\n' + header + '\n')
         res.append(properties(table.common_props))
         dialect = table.inherit('dialect')
-        if dialect.asdict():
+        if dialect and dialect.asdict():
             res.append('\n**CSV dialect**: `{}`\n'.format(json.dumps(dialect.asdict())))
         res.append('\n### Columns\n')
         res.append('Name/Property | Datatype | Description')
-- 
2.43.0


From c038244c54a96f3eab59b45f0c0fbab027e2eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:02 +0000
Subject: [PATCH 086/113] fix: show the headers of columns without name in
 Markdown

---
 src/csvw/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index 3c3dd79..fb14168 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -187,18 +187,18 @@ def metadata2markdown(tg, link_files=False) -> str:
             dt = 'list of {} (separated by `{}`)'.format(dt, col.separator)
         desc = col.common_props.get('dc:description', '').replace('\n', ' ')
 
-        if pk and col.name in pk:
+        if pk and col.header in pk:
             desc = (desc + '<br>') if desc else desc
             desc += 'Primary key'
 
-        if col.name in fks:
+        if col.header in fks:
             desc = (desc + '<br>') if desc else desc
             desc += 'References [{}::{}](#table-{})'.format(
-                fks[col.name][1], fks[col.name][0], slug(fks[col.name][1]))
+                fks[col.header][1], fks[col.header][0], slug(fks[col.header][1]))
 
         return ' | '.join([
-            '[{}]({})'.format(col.name, col.propertyUrl)
-            if col.propertyUrl else '`{}`'.format(col.name),
+            '[{}]({})'.format(col.header, col.propertyUrl)
+            if col.propertyUrl else '`{}`'.format(col.header),
             dt,
             desc,
         ])
-- 
2.43.0


From 69c2870f7c9e06e697cbf05b2633fd81f0dafead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:02 +0000
Subject: [PATCH 087/113] fix: show inherited datatypes and separators in
 Markdown

---
 src/csvw/utils.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index fb14168..07a8db2 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -171,20 +171,21 @@ def metadata2markdown(tg, link_files=False) -> str:
         return '\n'.join(res) + '\n'
 
     def colrow(col, fks, pk):
-        dt = '`{}`'.format(col.datatype.base if col.datatype else 'string')
-        if col.datatype:
-            if col.datatype.format:
-                if re.fullmatch(r'[\w\s]+(\|[\w\s]+)*', col.datatype.format):
+        datatype, separator = col.inherit('datatype'), col.inherit('separator')
+        dt = '`{}`'.format(datatype.base if datatype else 'string')
+        if datatype:
+            if datatype.format:
+                if re.fullmatch(r'[\w\s]+(\|[\w\s]+)*', datatype.format):
                     dt += '<br>Valid choices:<br>'
-                    dt += ''.join(' `{}`'.format(w) for w in col.datatype.format.split('|'))
-                elif col.datatype.base == 'string':
-                    dt += '<br>Regex: `{}`'.format(col.datatype.format)
-            if col.datatype.minimum:
-                dt += '<br>&ge; {}'.format(col.datatype.minimum)
-            if col.datatype.maximum:
-                dt += '<br>&le; {}'.format(col.datatype.maximum)
-        if col.separator:
-            dt = 'list of {} (separated by `{}`)'.format(dt, col.separator)
+                    dt += ''.join(' `{}`'.format(w) for w in datatype.format.split('|'))
+                elif datatype.base == 'string':
+                    dt += '<br>Regex: `{}`'.format(datatype.format)
+            if datatype.minimum:
+                dt += '<br>&ge; {}'.format(datatype.minimum)
+            if datatype.maximum:
+                dt += '<br>&le; {}'.format(datatype.maximum)
+        if separator:
+            dt = 'list of {} (separated by `{}`)'.format(dt, separator)
         desc = col.common_props.get('dc:description', '').replace('\n', ' ')
 
         if pk and col.header in pk:
-- 
2.43.0


From 6e4be5a5090d7bc334c56e349605f77c15eab1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 088/113] fix: formats which are objects and limits of 0 in
 Markdown

---
 src/csvw/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index 07a8db2..9e8f970 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -174,15 +174,15 @@ def metadata2markdown(tg, link_files=False) -> str:
         datatype, separator = col.inherit('datatype'), col.inherit('separator')
         dt = '`{}`'.format(datatype.base if datatype else 'string')
         if datatype:
-            if datatype.format:
+            if datatype.format and isinstance(datatype.format, str):
                 if re.fullmatch(r'[\w\s]+(\|[\w\s]+)*', datatype.format):
                     dt += '<br>Valid choices:<br>'
                     dt += ''.join(' `{}`'.format(w) for w in datatype.format.split('|'))
                 elif datatype.base == 'string':
                     dt += '<br>Regex: `{}`'.format(datatype.format)
-            if datatype.minimum:
+            if datatype.minimum is not None:
                 dt += '<br>&ge; {}'.format(datatype.minimum)
-            if datatype.maximum:
+            if datatype.maximum is not None:
                 dt += '<br>&le; {}'.format(datatype.maximum)
         if separator:
             dt = 'list of {} (separated by `{}`)'.format(dt, separator)
-- 
2.43.0


From 29290afc58007c41a2865d96ba2df89239c5c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:27 +0000
Subject: [PATCH 089/113] fix: pipes and line breaks do not break rows of
 Markdown tables apart

---
 src/csvw/utils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index 9e8f970..4fba072 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -136,6 +136,13 @@ def metadata2markdown(tg, link_files=False) -> str:
             return '[{}]({})'.format(qname, url)
         return qname
 
+    def row(*cells):
+        """
+        Pipes and line breaks would break a row of a table apart.
+        """
+        return ' | '.join(
+            re.sub(r'(?<!\\)\|', r'\\|', re.sub(r'[\r\n]+', ' ', cell)) for cell in cells)
+
     def htmlify(obj, key=None):
         """
         For inclusion in tables we must use HTML for lists.
@@ -167,7 +174,7 @@ def metadata2markdown(tg, link_files=False) -> str:
         if props:
             res.append('property | value\n --- | ---')
             for k, v in props.items():
-                res.append('{} | {}'.format(qname2link(k), htmlify(v, key=k)))
+                res.append(row(qname2link(k), htmlify(v, key=k)))
         return '\n'.join(res) + '\n'
 
     def colrow(col, fks, pk):
@@ -186,7 +193,7 @@ def metadata2markdown(tg, link_files=False) -> str:
                 dt += '<br>&le; {}'.format(datatype.maximum)
         if separator:
             dt = 'list of {} (separated by `{}`)'.format(dt, separator)
-        desc = col.common_props.get('dc:description', '').replace('\n', ' ')
+        desc = col.common_props.get('dc:description', '')
 
         if pk and col.header in pk:
             desc = (desc + '<br>') if desc else desc
@@ -197,12 +204,12 @@ def metadata2markdown(tg, link_files=False) -> str:
             desc += 'References [{}::{}](#table-{})'.format(
                 fks[col.header][1], fks[col.header][0], slug(fks[col.header][1]))
 
-        return ' | '.join([
+        return row(
             '[{}]({})'.format(col.header, col.propertyUrl)
             if col.propertyUrl else '`{}`'.format(col.header),
             dt,
             desc,
-        ])
+        )
 
     res = ['# {}\n'.format(tg.common_props.get('dc:title', 'Dataset'))]
     if tg._fname and link_files:
-- 
2.43.0


From 4e8c9e7f826aa66d58fff15168ba296c9362d742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:35 +0000
Subject: [PATCH 090/113] fix: descriptions which are no strings in Markdown

---
 src/csvw/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index 4fba072..20495e1 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -163,7 +163,7 @@ def metadata2markdown(tg, link_files=False) -> str:
         res = []
         desc = props.pop('dc:description', None)
         if desc:
-            res.append(desc + '\n')
+            res.append(htmlify(desc) + '\n')
         img = props.pop('https://schema.org/image', None)
         if img:
             if isinstance(img, str):  # pragma: no cover
@@ -193,7 +193,7 @@ def metadata2markdown(tg, link_files=False) -> str:
                 dt += '<br>&le; {}'.format(datatype.maximum)
         if separator:
             dt = 'list of {} (separated by `{}`)'.format(dt, separator)
-        desc = col.common_props.get('dc:description', '')
+        desc = htmlify(col.common_props.get('dc:description') or '')
 
         if pk and col.header in pk:
             desc = (desc + '<br>') if desc else desc
-- 
2.43.0


From 7e63b31cd7cc3ab7ee1ff3fb91ab5c84eb8fde0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:35 +0000
Subject: [PATCH 091/113] fix: show images given as URL in Markdown

---
 src/csvw/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index 20495e1..23ffa65 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -167,7 +167,7 @@ def metadata2markdown(tg, link_files=False) -> str:
         img = props.pop('https://schema.org/image', None)
         if img:
             if isinstance(img, str):  # pragma: no cover
-                img = {'contentUrl': img}
+                img = {'https://schema.org/contentUrl': img}
             res.append('![{}]({})\n'.format(
                 img.get('https://schema.org/caption') or '',
                 img.get('https://schema.org/contentUrl')))
-- 
2.43.0


From 45e9ad30d0cd70f886543cb2df5c8d06d7cb33f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 092/113] fix: references to schemas in Markdown

---
 src/csvw/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index 23ffa65..8a57390 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -220,7 +220,8 @@ def metadata2markdown(tg, link_files=False) -> str:
     for table in tg.tables:
         fks = {
             fk.columnReference[0]: (fk.reference.columnReference[0], fk.reference.resource.string)
-            for fk in table.tableSchema.foreignKeys if len(fk.columnReference) == 1}
+            for fk in table.tableSchema.foreignKeys
+            if len(fk.columnReference) == 1 and fk.reference.resource}
         header = '## <a name="table-{}"></a>Table '.format(slug(table.url.string))
         if link_files and tg._fname and tg._fname.parent.joinpath(table.url.string).exists():
             header += '[{0}]({0})\n'.format(table.url.string)
-- 
2.43.0


From ffdcbbdbc6ec5c1dcc7e0b30d25c69445a005838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 093/113] fix: titles of several lines or languages in Markdown

---
 src/csvw/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index 8a57390..0295a4c 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -211,7 +211,8 @@ def metadata2markdown(tg, link_files=False) -> str:
             desc,
         )
 
-    res = ['# {}\n'.format(tg.common_props.get('dc:title', 'Dataset'))]
+    title = htmlify(tg.common_props.get('dc:title', 'Dataset'))
+    res = ['# {}\n'.format(re.sub(r'[\r\n]+', ' ', title))]
     if tg._fname and link_files:
         res.append('> [!NOTE]\n> Described by [{0}]({0}).\n'.format(tg._fname.name))
 
-- 
2.43.0


From 31ad6834d041f38192cca2c957bb5e13610b0092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 094/113] fix: show all references of a column in Markdown

---
 src/csvw/utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index 0295a4c..ffc0af8 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -199,10 +199,9 @@ def metadata2markdown(tg, link_files=False) -> str:
             desc = (desc + '<br>') if desc else desc
             desc += 'Primary key'
 
-        if col.header in fks:
+        for colref, resource in fks.get(col.header, []):
             desc = (desc + '<br>') if desc else desc
-            desc += 'References [{}::{}](#table-{})'.format(
-                fks[col.header][1], fks[col.header][0], slug(fks[col.header][1]))
+            desc += 'References [{}::{}](#table-{})'.format(resource, colref, slug(resource))
 
         return row(
             '[{}]({})'.format(col.header, col.propertyUrl)
@@ -219,10 +218,11 @@ def metadata2markdown(tg, link_files=False) -> str:
     res.append(properties({k: v for k, v in tg.common_props.items() if k != 'dc:title'}))
 
     for table in tg.tables:
-        fks = {
-            fk.columnReference[0]: (fk.reference.columnReference[0], fk.reference.resource.string)
-            for fk in table.tableSchema.foreignKeys
-            if len(fk.columnReference) == 1 and fk.reference.resource}
+        fks = collections.defaultdict(list)
+        for fk in table.tableSchema.foreignKeys:
+            if len(fk.columnReference) == 1 and fk.reference.resource:
+                fks[fk.columnReference[0]].append(
+                    (fk.reference.columnReference[0], fk.reference.resource.string))
         header = '## <a name="table-{}"></a>Table '.format(slug(table.url.string))
         if link_files and tg._fname and tg._fname.parent.joinpath(table.url.string).exists():
             header += '[{0}]({0})\n'.format(table.url.string)
-- 
2.43.0


From 561e141bfdb0e9331d8e24c1817c3b54f20ece8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 095/113] fix: invalid formatting parameters neither truncate
 files nor leave them open

---
 src/csvw/dsv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 5942caf..2954a53 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -102,6 +102,7 @@ class UnicodeWriter:
         self._rows_written = 0
 
     def __enter__(self):
+        csv.writer(io.StringIO(), **self.kw)  # Invalid parameters must not touch an existing file.
         if isinstance(self.f, (str, pathlib.Path)):
             if isinstance(self.f, pathlib.Path):
                 self.f = str(self.f)
@@ -206,6 +207,7 @@ class UnicodeReader:
         self._reader_encoding = self.encoding
 
     def __enter__(self):
+        csv.reader([], **self.kw)  # Invalid parameters must not leave the file open.
         if isinstance(self.f, (str, pathlib.Path)):
             if isinstance(self.f, pathlib.Path):
                 self.f = str(self.f)
-- 
2.43.0


From 0b48aca14a36f7ba77c3c64f7f0a0b7b39fd7eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:25 +0000
Subject: [PATCH 096/113] fix: loading descriptions does not modify the data
 passed in

---
 src/csvw/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 683904f..6f97243 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -402,6 +402,7 @@ def valid_id_property(v):
 
 def valid_common_property(v):
     if isinstance(v, dict):
+        v = dict(v)
         if not {k[1:] for k in v if k.startswith('@')}.issubset(
                 {'id', 'language', 'type', 'value'}):
             raise ValueError(
@@ -568,6 +569,7 @@ class Datatype(DescriptionBase):
             return cls(base=v)
 
         if isinstance(v, dict):
+            v = dict(v)
             v.setdefault('base', 'string')
             return cls(**cls.partition_properties(v))
 
-- 
2.43.0


From b6da1a9e40ae7c57cd0cbceb5c5108c8ec43189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:11 +0000
Subject: [PATCH 097/113] fix: full serialisation of datatypes without limits

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 6f97243..3b0d5a8 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -657,7 +657,7 @@ class Datatype(DescriptionBase):
         for attr_ in [
             'minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'
         ]:
-            if attr_ in res:
+            if res.get(attr_) is not None:
                 res[attr_] = self.formatted(res[attr_])
         if len(res) == 1 and 'base' in res:
             return res['base']
-- 
2.43.0


From 281b9b548fed7a8ed9240504143f36ff8939ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 098/113] fix: checking a local context does not modify the
 data passed in

---
 src/csvw/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 3b0d5a8..76eb81c 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1169,6 +1169,8 @@ class TableLike(Description):
             self.at_props['id'] = self.base
         ctx = self.at_props.get('context')
         if isinstance(ctx, list):
+            ctx = [dict(obj) if isinstance(obj, dict) else obj for obj in ctx]
+            self.at_props['context'] = ctx
             for obj in ctx:
                 if (isinstance(obj, dict) and not set(obj.keys()).issubset({'@base', '@language'}))\
                         or (isinstance(obj, str) and obj != 'http://www.w3.org/ns/csvw'):
-- 
2.43.0


From 295ce2160b8c1a7acb3fd0a6dd07c3511ff72cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:43 +0000
Subject: [PATCH 099/113] fix: numbers with fraction are valid values of common
 properties

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 76eb81c..1063e81 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -412,7 +412,8 @@ def valid_common_property(v):
             if len(v) > 1:
                 if len(v) > 2 \
                         or set(v.keys()) not in [{'@value', '@language'}, {'@value', '@type'}] \
-                        or not isinstance(v['@value'], (str, bool, int, decimal.Decimal)):
+                        or not isinstance(
+                            v['@value'], (str, bool, int, float, decimal.Decimal)):
                     raise ValueError(
                         "If a @value property is used on an object, that object MUST NOT have "
                         "any other properties aside from either @type or @language, and MUST "
-- 
2.43.0


From ccc5e349f5effd7f5ad4729c00a4b4cc587b48e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:54 +0000
Subject: [PATCH 100/113] fix: strip a comment prefix only once, and not from
 skipped rows without it

---
 src/csvw/dsv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 2954a53..0680d70 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -241,10 +241,10 @@ class UnicodeReader:
                 if (row and self.dialect.commentPrefix and  # noqa: W504
                         row[0].startswith(self.dialect.commentPrefix)) or \
                         (row and self.lineno < self.dialect.skipRows):
-                    self.comments.append((
-                        self.lineno,
-                        self.dialect.delimiter.join(row).lstrip(self.dialect.commentPrefix).strip(),
-                    ))
+                    comment, prefix = self.dialect.delimiter.join(row), self.dialect.commentPrefix
+                    if prefix and comment.startswith(prefix):
+                        comment = comment[len(prefix):]
+                    self.comments.append((self.lineno, comment.strip()))
                 row = self._next_row()
             row = [self.dialect.trimmer(s) for s in row][self.dialect.skipColumns:]
         return row
-- 
2.43.0


From b593afc2951bce372f0b42528b905bfe2f0919b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:19 +0000
Subject: [PATCH 101/113] fix: compare inherited datatypes of the columns of
 foreign keys, too

---
 src/csvw/metadata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 1063e81..528c56a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1738,11 +1738,11 @@ class TableGroup(TableLike):
                     if not (scolumn and tcolumn):
                         raise ValueError(
                             'Foregin key error: missing column "{}" or "{}"'.format(scol, tcol))
-                    if scolumn.datatype and tcolumn.datatype and \
-                            scolumn.datatype.base != tcolumn.datatype.base:
+                    stype, ttype = scolumn.inherit('datatype'), tcolumn.inherit('datatype')
+                    if stype and ttype and stype.base != ttype.base:
                         raise ValueError(
                             'Foregin key error: non-matching datatype "{}:{}" or "{}:{}"'.format(
-                                scol, scolumn.datatype.base, tcol, tcolumn.datatype.base))
+                                scol, stype.base, tcol, ttype.base))
         except (KeyError, AssertionError) as e:
             raise ValueError('Foreign key error: missing table "{}" referenced'.format(e))
 
-- 
2.43.0


From c92b47fcba87ae0c081da57c108ff483f5d3fe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:19 +0000
Subject: [PATCH 102/113] fix: foreign keys with inherited separator are
 list-valued in the database, too

---
 src/csvw/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index dbf6594..36c9fac 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -274,7 +274,7 @@ class TableSpec(object):
         :return: `TableSpec` instance.
         """
         spec = cls(name=table.local_name, primary_key=table.tableSchema.primaryKey)
-        list_valued = {c.header for c in table.tableSchema.columns if c.separator}
+        list_valued = {c.header for c in table.tableSchema.columns if c.inherit('separator')}
         datatypes = {c.header: c.inherit('datatype') for c in table.tableSchema.columns}
         datatypes = {name: dt.base for name, dt in datatypes.items() if dt}
         for fk in table.tableSchema.foreignKeys:
-- 
2.43.0


From 7953223580be21dbf15e36fa882dabe2ec5a8515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:40 +0000
Subject: [PATCH 103/113] fix: column references of added foreign keys may be
 tuples

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 528c56a..1919ecc 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1327,7 +1327,8 @@ class Table(TableLike):
         :param ref_resource: Referenced table.
         :param ref_colref: Column reference of the key in the referenced table.
         """
-        colref = [colref] if not isinstance(colref, (tuple, list)) else colref
+        colref = list(colref) if isinstance(colref, (tuple, list)) else [colref]
+        ref_colref = list(ref_colref) if isinstance(ref_colref, (tuple, list)) else [ref_colref]
         if not all(col in [c.name for c in self.tableSchema.columns] for col in colref):
             raise ValueError('unknown column in foreignKey {0}'.format(colref))
 
-- 
2.43.0


From 4f953795057e7198209b1cb0876f9cea080086d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:48 +0000
Subject: [PATCH 104/113] fix: skip a byte order mark whatever the spelling of
 utf-8 in the dialect

---
 src/csvw/dsv.py      | 2 +-
 src/csvw/metadata.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 0680d70..6bef244 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -184,7 +184,7 @@ class UnicodeReader:
         self.newline = kw.pop('lineterminator', None)
         self.dialect = dialect if isinstance(dialect, Dialect) else None
         if self.dialect:
-            self.encoding = self.dialect.python_encoding
+            self.encoding = normalize_encoding(self.dialect.python_encoding)
             self.kw = dialect.as_python_formatting_parameters()
             self.kw.update(kw)
         else:
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 1919ecc..4522387 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -31,7 +31,8 @@ import uritemplate
 
 from . import utils
 from .datatypes import DATATYPES
-from .dsv import Dialect as BaseDialect, UnicodeReaderWithLineNumber, UnicodeWriter
+from .dsv import (
+    Dialect as BaseDialect, UnicodeReaderWithLineNumber, UnicodeWriter, normalize_encoding)
 from .frictionless import DataPackage
 from . import jsonld
 
@@ -1484,7 +1485,7 @@ class Table(TableLike):
 
         def text(fp):
             # Line endings must be preserved, and a BOM skipped, as when reading from a local path.
-            encoding = dialect.python_encoding
+            encoding = normalize_encoding(dialect.python_encoding)
             return io.TextIOWrapper(
                 fp, encoding='utf-8-sig' if encoding == 'utf-8' else encoding, newline='')
 
-- 
2.43.0


From 2b4d8c8c42852e4bd53b4fd7357ac893252244e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:48 +0000
Subject: [PATCH 105/113] fix: list-valued references to different columns of
 the same table in SQLite

---
 src/csvw/db.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 36c9fac..a422b6d 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -289,7 +289,7 @@ class TableSpec(object):
                     assert spec.primary_key and len(spec.primary_key) == 1, \
                         'Table {0} referenced by list-valued foreign key must have non-composite ' \
                         'primary key'.format(spec.name)
-                    spec.many_to_many[fk.columnReference[0]] = TableSpec.association_table(
+                    at = TableSpec.association_table(
                         spec.name,
                         spec.primary_key[0],
                         fk.reference.resource.string,
@@ -298,6 +298,11 @@ class TableSpec(object):
                         # Columns have the same datatype as the ones they refer to.
                         btype=datatypes.get(fk.columnReference[0]),
                     )
+                    if any(t.name == at.name and t.columns[1].name != at.columns[1].name
+                           for t in spec.many_to_many.values()):
+                        # Another column of the same table is referenced.
+                        at.name += '_' + fk.reference.columnReference[0]
+                    spec.many_to_many[fk.columnReference[0]] = at
                 elif not (drop_self_referential_fks and fk.reference.resource.string == spec.name):
                     spec.foreign_keys.append((
                         fk.columnReference,
-- 
2.43.0


From 858076c7826bc44b52f2888b4e2544f7f4cab57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:34 +0000
Subject: [PATCH 106/113] fix: keep all values when merging the properties of a
 row with those of its only subject

---
 src/csvw/jsonld.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 18761fb..42eb1b0 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -190,7 +190,8 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
     # the properties into a single object.
     if grouped and ('@id' not in grouped):
         if len(res) == 1:
-            grouped.update(res[0])
+            for prop, value in res[0].items():
+                add_value(grouped, prop, value)
             return [grouped]
         return [grouped] + res
 
-- 
2.43.0


From e522c98a1b1b321c9950a23c8baca21ca538829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:47 +0000
Subject: [PATCH 107/113] fix: do not truncate an existing file if a
 description cannot be serialized

---
 src/csvw/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4522387..75a20ab 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1222,8 +1222,10 @@ class TableLike(Description):
         """
         fname = utils.ensure_path(fname)
         data = self.asdict(omit_defaults=omit_defaults)
+        # Serialize before opening the file, which may exist, for writing.
+        data = json.dumps(data, indent=4, separators=(',', ': '))
         with json_open(str(fname), 'w') as f:
-            json.dump(data, f, indent=4, separators=(',', ': '))
+            f.write(data)
         return fname
 
     @property
-- 
2.43.0


From d86a0f826a5d3090c36375ff1fe23f3b48e606a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:47 +0000
Subject: [PATCH 108/113] fix: close zipped data when iteration fails or stops
 early

---
 src/csvw/metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 75a20ab..48f1983 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1517,8 +1517,9 @@ class Table(TableLike):
                     zipfname = fpath.parent.joinpath(fpath.name + '.zip')
                     if zipfname.exists():
                         zipf = stack.enter_context(zipfile.ZipFile(str(zipfname)))
-                        handle = text(
-                            zipf.open([n for n in zipf.namelist() if n.endswith(fpath.name)][0]))
+                        # The archive is kept open until its members are closed.
+                        handle = stack.enter_context(text(
+                            zipf.open([n for n in zipf.namelist() if n.endswith(fpath.name)][0])))
 
             reader = stack.enter_context(UnicodeReaderWithLineNumber(handle, dialect=dialect))
             reader = iter(reader)
-- 
2.43.0


From 627c837c41f73807afe28226e618175a5b937eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:56 +0000
Subject: [PATCH 109/113] fix: read tables from file-like objects as documented

---
 src/csvw/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 48f1983..4766c0b 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1510,6 +1510,8 @@ class Table(TableLike):
         with contextlib.ExitStack() as stack:
             if is_url(fname):
                 handle = text(io.BytesIO(requests.get(str(fname)).content))
+            elif hasattr(fname, 'read'):
+                handle = fname
             else:
                 handle = fname
                 fpath = pathlib.Path(fname)
-- 
2.43.0


From 5b018623b87682af93a8b0e529e58ff136618699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:58 +0000
Subject: [PATCH 110/113] fix: undescribed columns inherit the null property

---
 src/csvw/metadata.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4766c0b..2642075 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1491,6 +1491,10 @@ class Table(TableLike):
             return io.TextIOWrapper(
                 fp, encoding='utf-8-sig' if encoding == 'utf-8' else encoding, newline='')
 
+        def undescribed_column(index):
+            return Column.fromvalue({
+                'name': '_col.{}'.format(index + 1), 'null': self.tableSchema.inherit('null')})
+
         def report_malformed_row(lineno, exc):
             msg = '{0}:{1} {2}'.format(fname, lineno, exc)
             if strict:
@@ -1564,9 +1568,7 @@ class Table(TableLike):
                     try:
                         header_cols.append((cname, self.tableSchema.columns[i]))
                     except IndexError:
-                        header_cols.append((
-                            '_col.{}'.format(i + 1),
-                            Column.fromvalue({'name': '_col.{}'.format(i + 1)})))
+                        header_cols.append(('_col.{}'.format(i + 1), undescribed_column(i)))
             else:
                 header_cols = [(h, self.tableSchema.get_column(h)) for h in header]
             header_cols = [(j, h, c) for j, (h, c) in enumerate(header_cols)]
@@ -1583,9 +1585,7 @@ class Table(TableLike):
                 error = False
                 if (not header_cols) and row:
                     header_cols = [
-                        (i,
-                         '_col.{}'.format(i + 1),
-                         Column.fromvalue({'name': '_col.{}'.format(i + 1)}))
+                        (i, '_col.{}'.format(i + 1), undescribed_column(i))
                         for i, _ in enumerate(row)]
                 for (j, k, col), v in zip(header_cols, row):
                     # see http://w3c.github.io/csvw/syntax/#parsing-cells
-- 
2.43.0


From 943696e77ab4de4898a574e7e629053b21f055f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:54 +0000
Subject: [PATCH 111/113] fix: no header rows means data without header

---
 src/csvw/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 2642075..51bf6d1 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1064,8 +1064,8 @@ def dialect_props(d):
     for k in set(partitioned) - set(attr.fields_dict(Dialect)):
         warnings.warn('Invalid property {} for Dialect'.format(k))
         del partitioned[k]
-    if partitioned.get('headerRowCount'):
-        partitioned['header'] = True
+    if partitioned.get('headerRowCount') is not None:
+        partitioned['header'] = partitioned['headerRowCount'] != 0
     return partitioned
 
 
-- 
2.43.0


From 4bf0d92e05cd6ad647a57a823e8737088c673592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:19 +0000
Subject: [PATCH 112/113] fix: from_file and from_url do not change the data
 passed in

---
 src/csvw/metadata.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 51bf6d1..ad1affc 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1106,7 +1106,11 @@ def resolve_references(data: dict, base: typing.Union[str, pathlib.Path]) -> dic
     """
     Dialects and schemas may be given as URLs, relative to the location of the metadata document.
     """
-    tables, base = data.get('tables'), context_base(data.get('@context', []), base)
+    # Note: The data passed in must not be changed.
+    data, base = dict(data), context_base(data.get('@context', []), base)
+    tables = data.get('tables')
+    if isinstance(tables, list):
+        tables = data['tables'] = [dict(t) if isinstance(t, dict) else t for t in tables]
     for obj in [data] + (tables if isinstance(tables, list) else []):
         for prop in ['dialect', 'tableSchema']:
             if isinstance(obj, dict) and isinstance(obj.get(prop), str):
@@ -1206,7 +1210,7 @@ class TableLike(Description):
         """
         Instantiate a CSVW Table or TableGroup description from a metadata file specified by URL.
         """
-        data = data or get_json(url)
+        data = (data or get_json(url)).copy()
         url = urlparse(url)
         data.setdefault('@base', urlunparse((url.scheme, url.netloc, url.path, '', '', '')))
         res = cls.fromvalue(resolve_references(data, data['@base']))
-- 
2.43.0


From 906c2b8072c1f00b5a40274c5d5c3d4506f83fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:03 +0000
Subject: [PATCH 113/113] fix: the decimal point is forbidden for integers
 whatever the decimal character

---
 src/csvw/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 297f013..4444c5c 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -602,7 +602,7 @@ class integer(decimal):
     def to_python(cls, v, **kw):
         decimalChar = kw.get('decimalChar') or '.'
         if isinstance(v, str) and decimalChar in v and decimalChar != kw.get('groupChar') \
-                and decimalChar not in (kw.get('pattern') or ''):
+                and '.' not in (kw.get('pattern') or ''):
             cls.value_error(v)  # The decimal point is forbidden.
         res = decimal.to_python(v, **kw)
         if not res.is_finite():
-- 
2.43.0

