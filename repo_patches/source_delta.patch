From c62b9aa999fb2830bfc173d4d38b51c5108333d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 001/124] fix: Date.Offset with negative months/years, or days
 combined with months

---
 pyslet/pyslet/iso8601.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 6310356..bad5c40 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -549,15 +549,14 @@ class Date(object):
 			baseDay+=days+7*weeks
 			d=type(self)(absoluteDay=baseDay)
 		if months or years or centuries:
-			day=self.day
+			day=d.day
 			month=d.month+months
-			if month>12:
-				years+=(month-1)//12
-				month=(month-1)%12+1
+			# // and % floor, so this also works for negative offsets
+			years+=(month-1)//12
+			month=(month-1)%12+1
 			year=d.year+years
-			if year>99:
-				centuries+=year//100
-				year=year%100
+			centuries+=year//100
+			year=year%100
 			century=d.century+centuries
 			return type(self)(century=century,year=year,month=month,day=day)
 		else:
-- 
2.43.0


From d79df2bce6cc856d9fad5758b1f6c4a28e427ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 002/124] fix: week dates truncated to the year of the decade
 roll over into the next century

---
 pyslet/pyslet/iso8601.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index bad5c40..4bd1644 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -417,6 +417,9 @@ class Date(object):
 					if self.year<baseYear or (self.year==baseYear and (
 						self.week<baseWeek or (self.week==baseWeek and self.day<baseWeekday))):
 						self.year+=(baseDecade+1)*10
+						if self.year>99:
+							self.year-=100
+							self._AddCentury()
 					else:
 						self.year+=baseDecade*10
 			else:
-- 
2.43.0


From 52f40826fd6ba71a2ec3459c0af89875424f8cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 003/124] fix: Time.ShiftZone between zones more than a day
 apart

---
 pyslet/pyslet/iso8601.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 4bd1644..096dba7 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1327,8 +1327,9 @@ class Time(object):
 		
 			(<Time instance>, overflow)
 		
-		overflow is one of -1, 0 or 1 indicating if the time over- or
-		under-flowed as a result of the time zone shift."""
+		overflow is the number of days (negative, 0 or positive) by
+		which the time over- or under-flowed as a result of the time
+		zone shift."""
 		if self.zOffset is None:
 			raise DateTimeError("Can't shift time with unspecified zone: "+str(self))
 		if zDirection is None or (zDirection!=0 and zHour is None):
@@ -1355,14 +1356,8 @@ class Time(object):
 				hour-=1
 				minute+=60
 		hour=hour+zShift//60
-		if hour>23:
-			hour-=24
-			overflow=1
-		elif hour<0:
-			hour+=24
-			overflow=-1
-		else:
-			overflow=0
+		overflow=int(hour//24)
+		hour-=overflow*24
 		return type(self)(hour=hour,minute=minute,second=second,zDirection=zDirection,zHour=zHour,zMinute=zMinute),overflow
 
 	@classmethod
-- 
2.43.0


From 151d65524abc61ba134fc593d0221d895060f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 004/124] fix: Time.Offset from 24:00 with an offset of less
 than an hour

---
 pyslet/pyslet/iso8601.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 096dba7..32269e3 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1309,6 +1309,10 @@ class Time(object):
 			else:
 				days+=hour//24
 				hour=hour%24
+		elif hour==24 and (minute or second):
+			# the end of the day, plus some minutes or seconds
+			days+=1
+			hour=0
 		# always copy time zone from base
 		zDirection,zHour,zMinute=self.GetZone3()
 		return type(self)(hour=hour,minute=minute,second=second,zDirection=zDirection,zHour=zHour,zMinute=zMinute),days
-- 
2.43.0


From 4f829d0b9ee0fc68dc3126d2a4982aae0c6d06f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 005/124] fix: CharClass ranges that touch on both sides of a
 new range are merged

---
 pyslet/pyslet/unicode5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/unicode5.py b/pyslet/pyslet/unicode5.py
index 17761ef..c58c4c7 100644
--- a/pyslet/pyslet/unicode5.py
+++ b/pyslet/pyslet/unicode5.py
@@ -418,7 +418,7 @@ class CharClass:
 			if ord(ap)>=ord(a)-1:
 				# Left merge
 				indexA=indexA-1
-		elif indexZ<len(self.ranges)-1:
+		if indexZ<len(self.ranges)-1:
 			zn=self.ranges[indexZ+1][0]
 			if ord(zn)<=ord(z)+1:
 				# Right merge
-- 
2.43.0


From 09925dbd4fd989e415a3de9d1854b255b9e7fa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 006/124] fix: CharClass copies no longer share ranges with the
 class they were copied from

---
 pyslet/pyslet/unicode5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/unicode5.py b/pyslet/pyslet/unicode5.py
index c58c4c7..e350ece 100644
--- a/pyslet/pyslet/unicode5.py
+++ b/pyslet/pyslet/unicode5.py
@@ -396,7 +396,7 @@ class CharClass:
 		else:
 			# take a short cut here, if we have no ranges yet just copy them
 			for r in c.ranges:
-				self.ranges.append(r)
+				self.ranges.append([r[0],r[1]])
 							
 	def SubtractClass(self,c):
 		"""Subtracts all the characters in c from the character class"""
-- 
2.43.0


From fc23812226deab34f4a00baefbb029e4a9fc2dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 007/124] fix: Time.WithZoneString raised NameError

---
 pyslet/pyslet/iso8601.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 32269e3..5d9fda8 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1408,7 +1408,7 @@ class Time(object):
 		if type(zoneStr) in StringTypes:
 			p=ISO8601Parser(zoneStr)
 			zDirection,zHour,zMinute,format=p.ParseTimeZoneFormat()
-			return self.WithZone(zDirection=zDireciton,zHour=zHour,zMinute=zMinute)
+			return self.WithZone(zDirection=zDirection,zHour=zHour,zMinute=zMinute)
 		else:
 			raise TypeError
 		
-- 
2.43.0


From 674f52906c3473abb78674a1bdece2722f0e4d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 008/124] fix: Duration.GetString returned None for a duration
 in weeks

---
 pyslet/pyslet/iso8601.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 5d9fda8..09235c4 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -2489,7 +2489,17 @@ class Duration:
 			else:
 				return 'P'+datePart
 		else:
-			pass					
+			value=self.weeks
+			if type(value) is FloatType:
+				# as above, any fraction is only written if requested
+				fraction,value=modf(value)
+				value=int(value)
+				if ndp:
+					fractionStr="%i,%0*i" if ndp>0 else "%i.%0*i"
+					ndp=abs(ndp)
+					fraction=int(floor((fraction+2e-13)*float(10L**ndp)))
+					return 'P'+fractionStr%(value,ndp,fraction)+'W'
+			return 'P'+str(value)+'W'
 				
 	def SetFromDuration(self,src):
 		self.years=src.years
-- 
2.43.0


From 44f1eb3770ac3cab1d395ff382bb69356be57059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 009/124] fix: UnescapeData dropped text of incomplete or
 malformed escape sequences

---
 pyslet/pyslet/rfc2396.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/pyslet/rfc2396.py b/pyslet/pyslet/rfc2396.py
index 07c79ff..00be398 100755
--- a/pyslet/pyslet/rfc2396.py
+++ b/pyslet/pyslet/rfc2396.py
@@ -166,7 +166,13 @@ def UnescapeData(source):
 			else:
 				data.append('%')
 				data.append(mode)
+				data.append(c)
 			mode=None
+	if mode is not None:
+		# source ends in an incomplete escape sequence, keep it as it is
+		data.append('%')
+		if mode!='%':
+			data.append(mode)
 	return string.join(data,'')
 
 
-- 
2.43.0


From 421e2e3a5eb18ed0897d4c536e8467dc9e7a9ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 010/124] fix: URI.Relative lost the last segment or gave
 references that resolve elsewhere

---
 pyslet/pyslet/rfc2396.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pyslet/pyslet/rfc2396.py b/pyslet/pyslet/rfc2396.py
index 00be398..b57676e 100755
--- a/pyslet/pyslet/rfc2396.py
+++ b/pyslet/pyslet/rfc2396.py
@@ -309,19 +309,14 @@ def NormalizeSegments(pathSegments):
 		pathSegments.append('')
 		
 def RelativizeSegments(pathSegments,baseSegments):
-	result=[]
+	if pathSegments==baseSegments:
+		return []
+	# count the leading segments (directories) that are common to both
 	pos=0
-	while pos<len(baseSegments):
-		if result:
-			result=['..']+result
-		else:
-			if pos>=len(pathSegments) or baseSegments[pos]!=pathSegments[pos]:
-				result=result+pathSegments[pos:]
+	while pos<len(baseSegments)-1 and pos<len(pathSegments)-1 and baseSegments[pos]==pathSegments[pos]:
 		pos=pos+1
-	if not result and len(pathSegments)>len(baseSegments):
-		# full match but pathSegments is longer
-		return pathSegments[len(baseSegments)-1:]
-	elif result==['']:
+	result=['..']*(len(baseSegments)-1-pos)+pathSegments[pos:]
+	if result==['']:
 		return ['.']+result
 	else:
 		return result
@@ -817,6 +812,12 @@ class URI(object):
 				relPath=MakeRelPathAbs(self.absPath,base.absPath)
 				# todo: /a/b relative to /c/d really should be '/a/b' and not ../a/b
 				# in particular, drive letters look wrong in relative paths: ../C:/Program%20Files/
+			if relPath=='' and (self.query is not None or base.query is not None):
+				# an empty path would be a reference to the current document, or lose the last segment
+				relPath=((self.absPath or self.relPath).split('/')[-1]) or './'
+			if relPath[:1]=='/' or ':' in relPath.split('/')[0]:
+				# an empty first segment would look like an absolute path, a ':' like a scheme
+				relPath='./'+relPath
 		result=[]
 		if authority is not None:
 			result.append('//')
-- 
2.43.0


From 91b0eb53b53a6ad00891a0d64e50f40f2c7cfcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 011/124] fix: IsHEXDIGITS raised NameError

---
 pyslet/pyslet/rfc2616_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616_core.py b/pyslet/pyslet/rfc2616_core.py
index fe38fc0..b7216d1 100755
--- a/pyslet/pyslet/rfc2616_core.py
+++ b/pyslet/pyslet/rfc2616_core.py
@@ -70,7 +70,7 @@ def IsHEX(c):
 	return IsDIGIT(c) or (ord('A')<=ord(c) and ord(c)<=ord('F')) or (ord('a')<=ord(c) and ord(c)<=ord('f'))
 
 
-def IsHEXDIGITS(c):
+def IsHEXDIGITS(src):
 	"""Given a string, returns True if all characters match the production for HEX.
 	
 	Empty strings return False"""
-- 
2.43.0


From 39497474f78e4913be622f9fcfc04f096ab3976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 012/124] fix: QuoteString left the empty string unquoted,
 which is not a valid token

---
 pyslet/pyslet/rfc2616_core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/rfc2616_core.py b/pyslet/pyslet/rfc2616_core.py
index b7216d1..d036a4a 100755
--- a/pyslet/pyslet/rfc2616_core.py
+++ b/pyslet/pyslet/rfc2616_core.py
@@ -693,6 +693,9 @@ def QuoteString(s,force=True):
 	
 	If *force* is False then valid tokens are *not* quoted."""
 	qstring=['"']
+	if not s:
+		# the empty string is not a valid token
+		force=True
 	for c in s:
 		if c in '\\"' or (IsCTL(c) and c not in SP+HT):
 			qstring.append('\\'+c)
-- 
2.43.0


From 35f82c4f954242324431e64cd96f786bd0bbcf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 013/124] fix: parsing malformed HTTP words looped forever,
 raised TypeError or lost text

---
 pyslet/pyslet/rfc2616_core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/rfc2616_core.py b/pyslet/pyslet/rfc2616_core.py
index d036a4a..4757eac 100755
--- a/pyslet/pyslet/rfc2616_core.py
+++ b/pyslet/pyslet/rfc2616_core.py
@@ -286,6 +286,8 @@ class HTTPParser(BasicParser):
 					qs.append(qdtext)
 				else:
 					raise ValueError("Expected closing <\">: %s%s..."%(string.join(qs,''),self.Peek(5)))
+		else:
+			raise ValueError("Expected closing <\">: %s"%string.join(qs,''))
 		return string.join(qs,'')
 
 	def ParseQDText(self,unfold=False):
@@ -324,7 +326,7 @@ class HTTPParser(BasicParser):
 		found."""
 		savePos=self.pos
 		if self.Parse("\\"):
-			if IsCHAR(self.theChar):
+			if self.theChar is not None and IsCHAR(self.theChar):
 				qdPair="\\"+self.theChar
 				self.NextChar()
 				return qdPair				
@@ -385,8 +387,11 @@ class WordParser(object):
 				else:
 					self.words.append(p.theChar)
 					p.NextChar()
-			else:
-				self.words.append(p.ParseToken())
+			elif p.theChar is not None:
+				token=p.ParseToken()
+				if token is None:
+					raise SyntaxError("Unexpected character: %s"%repr(p.theChar))
+				self.words.append(token)
 		self.pos=0
 		if self.words:
 			self.cWord=self.words[0]
-- 
2.43.0


From e098696d823a4957c512969ee601c5a56a3802ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 014/124] fix: media types and transfer encodings could not be
 hashed, transfer encodings could not be compared

---
 pyslet/pyslet/rfc2616_params.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index 7f8078d..fd47ce1 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -167,6 +167,7 @@ class TransferEncoding(object):
 			self.parameters=parameters
 		self._hp=map(lambda x:(x[0],x[1][1]),self.parameters.items())
 		self._hp.sort()
+		self._hp=tuple(self._hp)
 	
 	@classmethod
 	def FromString(cls,source):
@@ -181,13 +182,10 @@ class TransferEncoding(object):
 	def __str__(self):
 		return self.token+FormatParameters(self.parameters)
 
-	def __eq__(self,other):
-		return hash(self)==hash(other)
-	
 	def __cmp__(self,other):
 		if type(other) in StringTypes:
 			other=TransferEncoding.FromString(other)
-		if not isinstance(TransferEncoding):
+		if not isinstance(other,TransferEncoding):
 			raise TypeError
 		return cmp((self.token,self._hp),(other.token,other._hp))
 		
@@ -211,6 +209,7 @@ class MediaType(object):
 		self.parameters=parameters
 		self._hp=map(lambda x:(x[0],x[1][1]),self.parameters.items())
 		self._hp.sort()
+		self._hp=tuple(self._hp)
 	
 	@classmethod
 	def FromString(cls,source):
-- 
2.43.0


From 507cac712f0db833b7a7e6d22908074e166e96ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 015/124] fix: parsing a malformed HTTP version raised
 NameError

---
 pyslet/pyslet/rfc2616_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index fd47ce1..d3a264b 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -589,7 +589,7 @@ class ParameterParser(WordParser):
 				raise SyntaxError("Expected version, found %s"%repr(token))
 			return HTTPVersion(major=int(version[0]),minor=int(version[1]))
 		except SyntaxError:
-			self.SetPos(savePost)
+			self.SetPos(savePos)
 			return None
 
 	wkday=["Mon","Tue","Wed","Thu","Fri","Sat","Sun"]
-- 
2.43.0


From 732259a4d82521fea63b0cf91faecc6d74479a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 016/124] fix: EntityTag repr raised AttributeError

---
 pyslet/pyslet/rfc2616_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index d3a264b..a1bf8e1 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -551,7 +551,7 @@ class EntityTag:
 		return unicode(self.__str__())
 	
 	def __repr__(self):
-		return "EntityTag(%s,%s)"%(repr(self.tag),"True" if self.week else "False")
+		return "EntityTag(%s,%s)"%(repr(self.tag),"True" if self.weak else "False")
 			
 	def __cmp__(self,other):
 		"""Entity-tags are compared case sensitive."""
-- 
2.43.0


From d10caf6b086fe2dcf6ff6fa7bccda6bf0c802d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 017/124] fix: Accept header items could not be hashed

---
 pyslet/pyslet/rfc2616_headers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/rfc2616_headers.py b/pyslet/pyslet/rfc2616_headers.py
index 6657966..d603023 100755
--- a/pyslet/pyslet/rfc2616_headers.py
+++ b/pyslet/pyslet/rfc2616_headers.py
@@ -172,7 +172,7 @@ class AcceptItem(MediaRange):
 		return result
 
 	def __hash__(self):
-		return hash(self.range,self.q)
+		return hash((self.range,self.q))
 					
 
 class AcceptList(object):
@@ -293,7 +293,7 @@ class AcceptToken(object):
 		return result
 
 	def __hash__(self):
-		return hash(self._token,self.q)
+		return hash((self._token,self.q))
 
 
 class AcceptTokenList(object):
-- 
2.43.0


From e09a8848d789dcc44e91c2f83c16ea9b24739414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 018/124] fix: selecting a language with no acceptable choice
 returned the string 'None'

---
 pyslet/pyslet/rfc2616_headers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616_headers.py b/pyslet/pyslet/rfc2616_headers.py
index d603023..e561770 100755
--- a/pyslet/pyslet/rfc2616_headers.py
+++ b/pyslet/pyslet/rfc2616_headers.py
@@ -453,7 +453,8 @@ class AcceptLanguageList(AcceptTokenList):
 
 	def SelectToken(self,tokenList):
 		"""Remapped to :py:meth:`SelectLanguage`"""
-		return str(self.SelectLanguage(map(LanguageTag.FromString,tokenList)))
+		lang=self.SelectLanguage(map(LanguageTag.FromString,tokenList))
+		return None if lang is None else str(lang)
 	
 	def SelectLanguage(self,langList):
 		bestMatch=None
-- 
2.43.0


From c2e30dcce78273c927930556c8b6e9fb517afa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 019/124] fix: language ranges with different q-values compared
 equal but had different hashes

---
 pyslet/pyslet/rfc2616_headers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/rfc2616_headers.py b/pyslet/pyslet/rfc2616_headers.py
index e561770..c6e9857 100755
--- a/pyslet/pyslet/rfc2616_headers.py
+++ b/pyslet/pyslet/rfc2616_headers.py
@@ -441,6 +441,9 @@ class AcceptLanguageItem(AcceptToken):
 		if result==0:
 			# and then secondary sort on alphabetical
 			result=cmp(self._range,other._range)
+		if result==0:
+			# equal ranges sort by descending qvalue
+			result=cmp(other.q,self.q)
 		return result
 
 
-- 
2.43.0


From 2cb7857588e13e4f87aee5323779a6f0db3ec4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 020/124] fix: HTTP dates at the start or end of a century were
 written with the wrong century

---
 pyslet/pyslet/rfc2616_params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index a1bf8e1..4fbd9fc 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -135,7 +135,8 @@ class FullDate(iso.TimePoint):
 		Note that this overrides the default behaviour which would be to use one
 		of the iso8601 output formats."""
 		century,year,month,day,hour,minute,second=self.GetCalendarTimePoint()
-		century,decade,dyear,week,dayOfWeek=self.date.GetWeekDay()
+		# take care, the week may belong to a year in a different century
+		dayOfWeek=self.date.GetWeekDay()[4]
 		return "%s, %02i %s %04i %02i:%02i:%02i GMT"%(
 			ParameterParser.wkday[dayOfWeek-1],
 			day,
-- 
2.43.0


From 5defe79918545c44f3cbfed88937123f2eb17f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 021/124] fix: response data beyond the Content-Length was
 delivered in place of the body

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index bc2e377..89610b9 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1947,7 +1947,7 @@ class HTTPResponse(HTTPMessage):
 			if self.transferLength:
 				if self.transferPos>self.transferLength:
 					extra=self.transferPos-self.transferLength
-					self.request.WriteResponse(data[:extra])
+					self.request.WriteResponse(data[:-extra])
 				else:
 					self.request.WriteResponse(data)
 				if self.transferPos>=self.transferLength:
-- 
2.43.0


From 8b28cde5dd88f42a4aaf0c73396af71edb071530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 022/124] fix: Transfer-Encoding: identity in a response was
 taken for chunked

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 89610b9..4b4b8fe 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1296,7 +1296,7 @@ class HTTPMessage(object):
 			return
 		# If there is an encoding other than 'identity' then we're using chunked
 		encoding=self.GetTransferEncoding()
-		if encoding is not None and encoding!="identity":
+		if encoding is not None and encoding.strip().lower()!="identity":
 			self.transferChunked=True
 			self.transferLength=None
 			# overrides any Content-Length setting
-- 
2.43.0


From 50aaa80d9a56c80feb56fa635f6d4cd42b0a7456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 023/124] fix: an empty chunked request body was sent as two
 last-chunks

---
 pyslet/pyslet/rfc2616.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 4b4b8fe..117be1a 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1597,10 +1597,11 @@ class HTTPRequest(HTTPMessage):
 			# We're just sending the body string
 			if self.transferChunked:
 				buffer=[]
-				# Send the first chunk size
-				buffer.append("%x\r\n"%len(self.reqBody))
-				buffer.append(self.reqBody)
-				buffer.append(CRLF)
+				if self.reqBody:
+					# Send the first chunk size
+					buffer.append("%x\r\n"%len(self.reqBody))
+					buffer.append(self.reqBody)
+					buffer.append(CRLF)
 				buffer.append("0\r\n\r\n")
 				self.transferPos=len(self.reqBody)
 				self.transferDone=True
-- 
2.43.0


From 1c41af6e84885a8cb70db8271a1f01b88f85a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 024/124] fix: HTTPMessage.SetAllow raised NameError

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 117be1a..46132ce 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1029,7 +1029,7 @@ class HTTPMessage(object):
 		if allowed is None:
 			self.SetHeader("Allow",None)
 		else:
-			if type(acceptValue) in StringTypes:
+			if type(allowed) in StringTypes:
 				allowed=Allow.FromString(allowed)
 			if not isinstance(allowed,Allow):
 				raise TypeError
-- 
2.43.0


From 8ef391983c2b92128c6adae196790a85a58650b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 025/124] fix: HTTPMessage.SetDate raised NameError

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 46132ce..81df532 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1250,7 +1250,7 @@ class HTTPMessage(object):
 		if date is None:
 			self.SetHeader("Date",None)
 		else:
-			self.SetHeader("Date",FormatDate(date))
+			self.SetHeader("Date",str(date))
 				
 	def GetExpectContinue(self):
 		fieldValue=self.GetHeader("Expect")
-- 
2.43.0


From 4790445b55de85df1b707a8ea52c44ffccd7ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 026/124] fix: a 401 response without WWW-Authenticate raised
 TypeError

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 81df532..25b5c81 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1811,7 +1811,7 @@ class HTTPResponse(HTTPMessage):
 		if fieldValue is not None:
 			return Challenge.ListFromString(fieldValue)
 		else:
-			return None
+			return []
 
 	def SetWWWAuthenticate(self,challenges):
 		"""Sets the "WWW-Authenticate" header, replacing any exsiting
-- 
2.43.0


From aa140ec0bf09e5289082cd4fa9f07ec84c9061dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 027/124] fix: redirects with a relative Location, or none
 (304), raised AttributeError

---
 pyslet/pyslet/rfc2616.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 25b5c81..4862138 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1700,13 +1700,15 @@ class HTTPRequest(HTTPMessage):
 			# If the 302 status code is received in response to a request other
 			# than GET or HEAD, the user agent MUST NOT automatically redirect the
 			# request unless it can be confirmed by the user
-			location=self.response.GetHeader("Location").strip()
+			location=self.response.GetHeader("Location")
+			if location is not None:
+				location=location.strip()
 			if location:
 				url=uri.URIFactory.URI(location)
 				if not url.host:
 					# This is an error but a common one (thanks IIS!)
-					location=location.Resolve(self.requestURI)
-				self.Resend(location)
+					url=url.Resolve(self.requestURI)
+				self.Resend(url)
 		elif self.status==401:
 			challenges=self.response.GetWWWAuthenticate()
 			for c in challenges:
-- 
2.43.0


From 1217ba4a2bff90b9c069407c8d0a9a890ac69b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 028/124] fix: a POST queued behind another request was sent
 twice

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 4862138..9a7ddac 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -156,7 +156,7 @@ class Connection(object):
 				if self.response is None or self.IDEMPOTENT.get(request.method,False):
 					# If we are waiting for a response we only accept idempotent methods
 					self.requestQueue=self.requestQueue[1:]
-				self._StartRequest(request)
+					self._StartRequest(request)
 			if self.request or self.response:
 				if self.socket is None:
 					self.NewSocket()
-- 
2.43.0


From 30ef092be4b86793cedadbc5438691702538c9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 029/124] fix: connections were kept after a response with a
 bad status code

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 9a7ddac..4225fa2 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1665,7 +1665,7 @@ class HTTPRequest(HTTPMessage):
 						# don't plan to send it so we have to hang up!
 						self.connection.RequestDisconnect()
 					# else, we were finished anyway... the connection will discover this itself
-				elif self.response>=200:
+				elif self.status>=200:
 					# For 2xx result codes we let the connection finish spooling
 					# and disconnect from us when it is done
 					pass
-- 
2.43.0


From 6a9193ee8160ee94a1b1992fd715c9b37db70f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 030/124] fix: connection that can send no more data failed
 with AttributeError

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 4225fa2..05a46e4 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -378,7 +378,7 @@ class Connection(object):
 				# requests!
 				self.request.Disconnect()
 				self.request=None
-				self.requestMode==self.CLOSE_WAIT
+				self.requestMode=self.CLOSE_WAIT
 				self.sendBuffer=[]
 			elif nBytes<len(data):
 				# Some of the data went:
-- 
2.43.0


From ab771bde9ae9f4c35cb65483426e6183de78fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 031/124] fix: pipelined responses received together left the
 connection waiting for more data

---
 pyslet/pyslet/rfc2616.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 05a46e4..9e37099 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -216,14 +216,19 @@ class Connection(object):
 						# there is an error on our socket...
 						self.Close("socket error indicated by select")
 					elif r:
-						if self._RecvResponseData():
+						responseDone=self._RecvResponseData()
+						while responseDone:
 							# The response is done
+							responseDone=False
 							closeConnection=False
 							if self.response:
 								closeConnection="close" in self.response.GetConnection() or self.response.protocolVersion<HTTP_1_1
 							if self.responseQueue:
 								self.response=self.responseQueue[0]
 								self.responseQueue=self.responseQueue[1:]
+								if not closeConnection:
+									# we may already have data for this response
+									responseDone=self._ReadResponseData()
 							elif self.response:
 								self.response=None
 								if self.requestMode==self.CLOSE_WAIT:
@@ -413,6 +418,11 @@ class Connection(object):
 			logging.debug("%s: closing connection after recv returned no data on ready to read socket",self.host)
 			self.Close()
 			return True
+		return self._ReadResponseData(err)
+		
+	def _ReadResponseData(self,err=None):
+		#	Passes the data in the recvBuffer to the response, returns
+		#	as per _RecvResponseData
 		# Now loop until we can't satisfy the response anymore (or the response is done)
 		while self.response is not None:
 			recvNeeds=self.response.RecvNeeds()
-- 
2.43.0


From cf545b7c0330f656d2e18fe5f8f594d9f1db8614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 032/124] fix: challenges with a scheme other than Basic lost
 their scheme or raised TypeError

---
 pyslet/pyslet/rfc2617.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2617.py b/pyslet/pyslet/rfc2617.py
index 6c606f3..fa35e05 100755
--- a/pyslet/pyslet/rfc2617.py
+++ b/pyslet/pyslet/rfc2617.py
@@ -301,4 +301,4 @@ class AuthorizationParser(ParameterParser):
 		if authScheme.lower()=="basic":
 			return BasicChallenge(*params)
 		else:
-			return Challenge(*params)
+			return Challenge(authScheme,*params)
-- 
2.43.0


From ebae0d26684ab9a2ead447ddbc476e28b880e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 033/124] fix: lists of challenges, and spaces between
 parameters, raised SyntaxError

---
 pyslet/pyslet/rfc2617.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2617.py b/pyslet/pyslet/rfc2617.py
index fa35e05..304678b 100755
--- a/pyslet/pyslet/rfc2617.py
+++ b/pyslet/pyslet/rfc2617.py
@@ -282,11 +282,15 @@ class AuthorizationParser(ParameterParser):
 		authScheme=self.RequireToken("auth scheme")
 		params=[]
 		self.ParseSP()
+		savePos=self.pos
 		while self.cWord is not None:
 			paramName=self.ParseToken()
 			if paramName is not None:
 				self.ParseSP()
-				self.RequireSeparator('=')
+				if not self.ParseSeparator('='):
+					# not a parameter, perhaps the next challenge in a list
+					self.SetPos(savePos)
+					break
 				self.ParseSP()
 				if self.IsToken():
 					paramValue=self.ParseToken()
@@ -296,8 +300,10 @@ class AuthorizationParser(ParameterParser):
 					forceQ=True
 				params.append((paramName,paramValue,forceQ))
 			self.ParseSP()
+			savePos=self.pos
 			if not self.ParseSeparator(","):
 				break
+			self.ParseSP()
 		if authScheme.lower()=="basic":
 			return BasicChallenge(*params)
 		else:
-- 
2.43.0


From 1a6fe07e67bcf7eb378b53fc036ca34b28c490aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 034/124] fix: matching credentials with a realm to a challenge
 raised AttributeError

---
 pyslet/pyslet/rfc2617.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2617.py b/pyslet/pyslet/rfc2617.py
index 304678b..632315d 100755
--- a/pyslet/pyslet/rfc2617.py
+++ b/pyslet/pyslet/rfc2617.py
@@ -148,7 +148,7 @@ class Credentials(object):
 		if self.protectionSpace!=challenge.protectionSpace:
 			return False
 		if self.realm:
-			if self.realm!=challenge.realm:
+			if self.realm!=challenge["realm"]:
 				return False
 		return True
 
-- 
2.43.0


From 2368dcb7509c3695b5c02a4ff05bbfc84cc362a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 035/124] fix: basic credentials with a colon in the password
 were refused

---
 pyslet/pyslet/rfc2617.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2617.py b/pyslet/pyslet/rfc2617.py
index 632315d..7d18a0c 100755
--- a/pyslet/pyslet/rfc2617.py
+++ b/pyslet/pyslet/rfc2617.py
@@ -192,7 +192,7 @@ class BasicCredentials(Credentials):
 		self.pathPrefixes=[]	#: a list of path-prefixes for which these credentials are known to be good 
 		
 	def SetBasicCredentials(self,basicCredentials):
-		credentials=base64.b64decode(basicCredentials).split(':')
+		credentials=base64.b64decode(basicCredentials).split(':',1)
 		if len(credentials)==2:
 			self.userid,self.password=credentials
 		else:
-- 
2.43.0


From 4cb6b2bef101dcc132201cdd7200f73199d9f852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 036/124] fix: BasicCredentials.Match raised AttributeError

---
 pyslet/pyslet/rfc2617.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2617.py b/pyslet/pyslet/rfc2617.py
index 7d18a0c..c6a76d7 100755
--- a/pyslet/pyslet/rfc2617.py
+++ b/pyslet/pyslet/rfc2617.py
@@ -201,7 +201,7 @@ class BasicCredentials(Credentials):
 	def Match(self,challenge=None,url=None):
 		if challenge is not None:
 			# must match the challenge
-			if not super(BasicCredentials,self).Match(challenge):
+			if not self.MatchChallenge(challenge):
 				return False
 		if url is not None:
 			# must match the url
-- 
2.43.0


From 91a7876d771712cdfe25394416cebc686b08be38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 037/124] fix: credentials refused by the server raised
 AttributeError

---
 pyslet/pyslet/rfc2616.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 9e37099..d7caea6 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -907,6 +907,19 @@ class HTTPRequestManager(object):
 		with self.managerLock:
 			self.credentials.append(credentials)
 	
+	def RemoveCredentials(self,credentials):
+		"""Removes credentials from this manager.
+		
+		*credentials*
+			A :py:class:`pyslet.rfc2617.Credentials` instance previously
+			added with :py:meth:`AddCredentials`.  If there are no such
+			credentials no action is taken."""
+		with self.managerLock:
+			for i in xrange(len(self.credentials)):
+				if self.credentials[i] is credentials:
+					del self.credentials[i]
+					break
+	
 	def DNSLookup(self,host,port):
 		"""Given a host name (string) and a port number performs a DNS lookup
 		using the native socket.getaddrinfo function.  The resulting value is
-- 
2.43.0


From 0c93759f0a11776ac75465a5dcd6fdd984d96543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 038/124] fix: malformed basic credentials raised NameError or
 TypeError

---
 pyslet/pyslet/rfc2617.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2617.py b/pyslet/pyslet/rfc2617.py
index c6a76d7..3d64abd 100755
--- a/pyslet/pyslet/rfc2617.py
+++ b/pyslet/pyslet/rfc2617.py
@@ -7,6 +7,11 @@ from pyslet.rfc2616_core import *
 from pyslet.rfc2616_params import *
 
 
+class HTTPInvalidBasicCredentials(SyntaxError):
+	"""Raised when basic credentials can't be decoded."""
+	pass
+
+
 class Challenge(object):
 	"""Represents an HTTP authentication challenge.
 	
@@ -192,7 +197,10 @@ class BasicCredentials(Credentials):
 		self.pathPrefixes=[]	#: a list of path-prefixes for which these credentials are known to be good 
 		
 	def SetBasicCredentials(self,basicCredentials):
-		credentials=base64.b64decode(basicCredentials).split(':',1)
+		try:
+			credentials=base64.b64decode(basicCredentials).split(':',1)
+		except TypeError:
+			raise HTTPInvalidBasicCredentials(basicCredentials)
 		if len(credentials)==2:
 			self.userid,self.password=credentials
 		else:
-- 
2.43.0


From 661d3c2f16d30a3331ec179b8bf5213a60ea5362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 039/124] fix: a 401 response with several challenges was
 retried more than once or without end

---
 pyslet/pyslet/rfc2616.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index d7caea6..b675a67 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1740,6 +1740,7 @@ class HTTPRequest(HTTPMessage):
 				if self.tryCredentials:
 					self.SetHeader('Authorization',str(self.tryCredentials))
 					self.Resend()	# to the same URL
+					break
 
 class HTTPResponse(HTTPMessage):
 	
-- 
2.43.0


From 99f4cc33d43b4b8d6299753f3953872a13cdb020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 040/124] fix: the Authorization header was sent to the server
 a request was redirected to

---
 pyslet/pyslet/rfc2616.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index b675a67..6d4635e 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1731,6 +1731,9 @@ class HTTPRequest(HTTPMessage):
 				if not url.host:
 					# This is an error but a common one (thanks IIS!)
 					url=url.Resolve(self.requestURI)
+				if url.GetCanonicalRoot()!=self.requestURI.GetCanonicalRoot():
+					# credentials for one server must not be sent to another
+					self.SetHeader("Authorization",None)
 				self.Resend(url)
 		elif self.status==401:
 			challenges=self.response.GetWWWAuthenticate()
-- 
2.43.0


From 0052c052dc8863a533cbc3a06d4d05d973f54072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 041/124] fix: redirects to a relative path raised
 AttributeError

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 6d4635e..fb7becc 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1728,7 +1728,7 @@ class HTTPRequest(HTTPMessage):
 				location=location.strip()
 			if location:
 				url=uri.URIFactory.URI(location)
-				if not url.host:
+				if not url.IsAbsolute():
 					# This is an error but a common one (thanks IIS!)
 					url=url.Resolve(self.requestURI)
 				if url.GetCanonicalRoot()!=self.requestURI.GetCanonicalRoot():
-- 
2.43.0


From 5370cb4292a0a0d0b0e5b3fa48ca47e316dfc6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:41 +0000
Subject: [PATCH 042/124] fix: template variable references raised
 AttributeError

---
 pyslet/pyslet/qtiv2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/core.py b/pyslet/pyslet/qtiv2/core.py
index ba319e2..3afafc8 100755
--- a/pyslet/pyslet/qtiv2/core.py
+++ b/pyslet/pyslet/qtiv2/core.py
@@ -367,6 +367,6 @@ def GetTemplateRef(value):
 	the value does not look like a template variable reference."""
 	if value.startswith('{') and value.endswith('}'):
 		idValue=value[1:-1]
-		if xsi.IsValidNCName(idValue):
+		if xmlns.IsValidNCName(idValue):
 			return idValue
 	return None
-- 
2.43.0


From 61a8d1f5a5842e35c7ab2a5a2fc4512fbc2ae48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:41 +0000
Subject: [PATCH 043/124] fix: references to undeclared template variables
 raised KeyError

---
 pyslet/pyslet/qtiv2/expressions.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/expressions.py b/pyslet/pyslet/qtiv2/expressions.py
index 173a72a..729d774 100755
--- a/pyslet/pyslet/qtiv2/expressions.py
+++ b/pyslet/pyslet/qtiv2/expressions.py
@@ -12,6 +12,14 @@ import string, random, itertools, math
 class Expression(core.QTIElement):
 	"""Abstract class for all expression elements."""
 	
+	def _IsTemplate(self,state,ref):
+		"""Returns True if *ref* is the name of a template variable in *state*"""
+		try:
+			return state.IsTemplate(ref)
+		except KeyError:
+			return False
+
+	
 	def Evaluate(self,state):
 		"""Evaluates this expression in the context of the session *state*."""
 		raise NotImplementedError("Evaluation of %s"%self.__class__.__name__)
@@ -23,7 +31,7 @@ class Expression(core.QTIElement):
 		value then None is returned."""
 		ref=core.GetTemplateRef(value)
 		if ref:
-			if state.IsTemplate(ref):
+			if self._IsTemplate(state,ref):
 				v=state[ref]
 				if isinstance(v,variables.IntegerValue):
 					return v.value
@@ -41,7 +49,7 @@ class Expression(core.QTIElement):
 		value then None is returned."""
 		ref=core.GetTemplateRef(value)
 		if ref:
-			if state.IsTemplate(ref):
+			if self._IsTemplate(state,ref):
 				v=state[ref]
 				if isinstance(v,variables.FloatValue):
 					return v.value
@@ -67,7 +75,7 @@ class Expression(core.QTIElement):
 		"""
 		ref=core.GetTemplateRef(value)
 		if ref:
-			if state.IsTemplate(ref):
+			if self._IsTemplate(state,ref):
 				v=state[ref]
 				if isinstance(v,variables.StringValue):
 					return v.value
-- 
2.43.0


From 9dab5409eece58137c2d6e7d8d17cd12c1b23e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:41 +0000
Subject: [PATCH 044/124] fix: integer values out of range were accepted from
 strings

---
 pyslet/pyslet/qtiv2/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 37e2bfe..70f5dc4 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -635,7 +635,7 @@ class IntegerValue(SingleValue):
 			else:
 				self.value=int(value)
 		elif type(value) in StringTypes:
-			self.value=xsi.DecodeInteger(value)
+			self.SetValue(xsi.DecodeInteger(value))
 		else:
 			self.ValueError(value)
 
-- 
2.43.0


From 15e751f166bf16e74fedba0322612172064e3756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 045/124] fix: copies of multiple containers lost repeated
 values

---
 pyslet/pyslet/qtiv2/variables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 70f5dc4..ff9aee2 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -853,6 +853,9 @@ class MultipleContainer(Container):
 		if value is None:
 			self.value=None
 		else:
+			if type(value) is DictType:
+				# a mapping from values to their frequencies
+				value=itertools.chain(*[[k]*value[k] for k in value])
 			self.value={}
 			for v in value:
 				if v is None:
-- 
2.43.0


From c9b0f71c0d2613574802981ebf5f646eb2dca065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 046/124] fix: containers could not be converted to strings

---
 pyslet/pyslet/qtiv2/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index ff9aee2..ce03060 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -767,9 +767,9 @@ class Container(Value):
 		
 		We therefore opt for a minimal representation."""
 		if self.baseType is None:
-			return u"%s container of unknown base type"%Cardinality.EncodeValue(self.Cardinality)
+			return u"%s container of unknown base type"%Cardinality.EncodeValue(self.Cardinality())
 		else:
-			return u"%s container of base type %s"%(Cardinality.EncodeValue(self.Cardinality),
+			return u"%s container of base type %s"%(Cardinality.EncodeValue(self.Cardinality()),
 				BaseType.EncodeValue(self.baseType))
 
 	@classmethod
-- 
2.43.0


From 6360d5e8e89131e5329d0d24f7dbed455f5c5742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 047/124] fix: setting a record field to something other than a
 value raised NameError

---
 pyslet/pyslet/qtiv2/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index ce03060..9720fdd 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -960,7 +960,7 @@ class RecordContainer(Container):
 				else:
 					self.value[fieldIdentifier]=value		
 		else:
-			raise ValueError("Single value required, found %s"%repr(v))	
+			raise ValueError("Single value required, found %s"%repr(value))	
 
 	def __delitem__(self,fieldIdentifier):
 		if self.value:
-- 
2.43.0


From c963b76773098a905d5547bc5dba8d54cd730068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 048/124] fix: MatchTable used the last of several entries that
 match

---
 pyslet/pyslet/qtiv2/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 9720fdd..b867cf5 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -1462,7 +1462,8 @@ class MatchTable(LookupTable):
 		self.map={}
 		for mte in self.MatchTableEntry:
 			v=SingleValue.NewValue(self.baseType,mte.targetValue)
-			self.map[mte.sourceValue]=v.value
+			# the first matching entry is the one that counts
+			self.map.setdefault(mte.sourceValue,v.value)
 					
 	def Lookup(self,value):
 		"""Maps an instance of :py:class:`Value` with integer base type to an
-- 
2.43.0


From 4ba7e51c373d6ff3cd6dcdf769e7e3cfff5116f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 049/124] fix: file values could not be created by base type or
 set

---
 pyslet/pyslet/qtiv2/variables.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index b867cf5..7f177c0 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -9,9 +9,9 @@ from pyslet.rfc2396  import URI, URIFactory
 import pyslet.qtiv2.core as core
 import pyslet.qtiv2.tests as tests
 
-import os, time, hashlib, types
+import os, time, hashlib, types, StringIO
 import string, itertools
-from types import BooleanType,IntType,LongType,FloatType,StringTypes,DictType,TupleType,ListType
+from types import BooleanType,IntType,LongType,FloatType,StringTypes,DictType,TupleType,ListType,FileType,StringType,UnicodeType
 
 
 class SessionKeyMismatch(core.QTIError):
@@ -484,13 +484,15 @@ class DirectedPairValue(SingleValue):
 class FileValue(SingleValue):
 	"""Represents single value of type :py:class:`BaseType.file`."""
 	
-	def __init__(self):
+	def __init__(self,value=None):
 		super(FileValue,self).__init__()
 		self.baseType=BaseType.file
 		self.contentType=http.MediaType.FromString("application/octet-stream")
 		"""The content type of the file, a :py:class:`pyslet.rfc2616.HTTPMediaType` instance."""
 		self.fileName="data.bin"
 		"""The file name to use for the file."""
+		if value is not None:
+			 self.SetValue(value)
 		
 	def __unicode__(self):
 		if self.value is None:
-- 
2.43.0


From 9fd8476f947d38d89730b6a63e2cd47d87905c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 050/124] fix: Enumeration.DecodeValueDict returned only the
 last value

---
 pyslet/pyslet/xsdatatypes20041028.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xsdatatypes20041028.py b/pyslet/pyslet/xsdatatypes20041028.py
index 030eb0c..44c61a6 100644
--- a/pyslet/pyslet/xsdatatypes20041028.py
+++ b/pyslet/pyslet/xsdatatypes20041028.py
@@ -533,8 +533,8 @@ class Enumeration:
 		result={}
 		for s in src.split():
 			sv=decoder(s)
-		if not sv in result:
-			result[sv]=s
+			if not sv in result:
+				result[sv]=s
 		return result
 		 
 	@classmethod
-- 
2.43.0


From 0a2e723f4cf025dedbd602fecf55c9f3443dfec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 051/124] fix: the bounds and offset of a polygon looped
 forever

---
 pyslet/pyslet/qtiv2/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/qtiv2/core.py b/pyslet/pyslet/qtiv2/core.py
index 3afafc8..ece1e65 100755
--- a/pyslet/pyslet/qtiv2/core.py
+++ b/pyslet/pyslet/qtiv2/core.py
@@ -161,6 +161,7 @@ def CalculateShapeBounds(shape,coords):
 				output[1]=y
 			elif y>output[3]:
 				output[3]=y
+			i=i+1
 		return output
 	elif shape==Shape.rect:
 		return [coords[0].GetValue(1024),coords[1].GetValue(768),
@@ -186,6 +187,7 @@ def OffsetShape(shape,coords,xOffset,yOffset):
 		while 2*i+1<len(coords):
 			coords[2*i].Add(-xOffset)
 			coords[2*i+1].Add(-yOffset)
+			i=i+1
 	elif shape==Shape.rect:
 		coords[0].Add(-xOffset)
 		coords[1].Add(-yOffset)
-- 
2.43.0


From 58db1aa4a60def73ff0c509234cec09d244c1136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:53 +0000
Subject: [PATCH 052/124] fix: setting a file value raised TypeError

---
 pyslet/pyslet/qtiv2/variables.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 7f177c0..bf7a71c 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -517,11 +517,11 @@ class FileValue(SingleValue):
 		self.fileName=name
 		if value is None:
 			self.value=None
-		elif type(value) is FileType:
+		elif isinstance(value,FileType):
 			self.value=value
-		elif type(value) is StringType:
+		elif isinstance(value,StringType):
 			self.value=StringIO.StringIO(value)
-		elif type(value) is UnicodeType:
+		elif isinstance(value,UnicodeType):
 			# Parse this value from the MIME stream.
 			raise NotImplementedError("String deserialization of BaseType.file.")
 		else:
-- 
2.43.0


From 87ebf6e5dae2604c261b6b7a183d09196661f1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 053/124] fix: submitting ordered or unexpected responses
 raised AttributeError, NameError or KeyError

---
 pyslet/pyslet/qtiv2/variables.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index bf7a71c..2467b00 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -24,6 +24,10 @@ class SessionKeyExpired(core.QTIError):
 
 class SessionActionMissing(core.QTIError):
 	"""Exception raised when an unrecognised action is handled by a test session."""
+
+class BadSessionParams(core.QTIError):
+	"""Exception raised when unexpected values are submitted to an item session."""
+	pass
 	
 class BaseType(xsi.Enumeration):
 	"""A base-type is simply a description of a set of atomic values (atomic to
@@ -1811,7 +1815,10 @@ class ItemSessionState(SessionState):
 			if not rName:
 				continue
 			# rName must be the name of a response variable
-			rd=self.GetDeclaration(rName[0])
+			try:
+				rd=self.GetDeclaration(rName[0])
+			except KeyError:
+				rd=None
 			if rd is None or not isinstance(rd,ResponseDeclaration):
 				# unexpected item in bagging area!
 				raise BadSessionParams("Unexpected item submitted wth form: %s"%p)
@@ -1843,10 +1850,8 @@ class ItemSessionState(SessionState):
 				if len(rName)!=2:
 					continue
 				try:
-					if rd.baseType==BaseType.Identifier and core.ValidateIdentifier(rName[1]):
-						if type(sValue) in StringTypes:
-							v.SetValue(sValue)
-						else:
+					if rd.baseType==BaseType.identifier and xmlns.IsValidNCName(rName[1]):
+						if type(sValue) not in StringTypes:
 							raise ValueError
 						rank=xsi.DecodeInteger(sValue)
 						sValue=rName[1]
-- 
2.43.0


From b2bd1477559fa1e1295c23f5b808fc386ae179e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 054/124] fix: submitting ordered responses raised KeyError

---
 pyslet/pyslet/qtiv2/variables.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 2467b00..6735ba2 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -1879,8 +1879,7 @@ class ItemSessionState(SessionState):
 				sValue=[]
 				for r in ranks:
 					sValue.append(rParams[r])
-				saveName=response+".SAVED"
-				v=self.map[saveName]
+				v=self.map[response]
 				v.SetValue(sValue)				
 				
 	def EndAttempt(self):
-- 
2.43.0


From b45740c3bdaf7c839595f037802ecf82c723a76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:17 +0000
Subject: [PATCH 055/124] fix: a refused submission could replace saved values

---
 pyslet/pyslet/qtiv2/variables.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 6735ba2..c24d3a6 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -1807,6 +1807,8 @@ class ItemSessionState(SessionState):
 	
 	def _SaveParameters(self,params):
 		orderedParams={}
+		# nothing is saved until all the parameters have been checked
+		saved={}
 		for p in params:
 			if self.formPrefix and not p.startswith(self.formPrefix):
 				# ignore values not intended for us
@@ -1824,10 +1826,12 @@ class ItemSessionState(SessionState):
 				raise BadSessionParams("Unexpected item submitted wth form: %s"%p)
 			# so we have a new response value to save
 			saveName=rName[0]+".SAVED"
-			if saveName not in self:
-				 self.map[saveName]=v=Value.NewValue(rd.cardinality,rd.baseType)
-			else:
-				v=self.map[saveName]
+			if saveName not in saved:
+				if saveName in self:
+					saved[saveName]=Value.CopyValue(self.map[saveName])
+				else:
+					saved[saveName]=Value.NewValue(rd.cardinality,rd.baseType)
+			v=saved[saveName]
 			# now we need to parse a value from the form to save
 			sValue=params[p]
 			if rd.cardinality==Cardinality.single:
@@ -1879,8 +1883,9 @@ class ItemSessionState(SessionState):
 				sValue=[]
 				for r in ranks:
 					sValue.append(rParams[r])
-				v=self.map[response]
+				v=saved[response]
 				v.SetValue(sValue)				
+		self.map.update(saved)
 				
 	def EndAttempt(self):
 		"""Called at the end of an attempt.  Invokes response processing if present."""
-- 
2.43.0


From 5f85a236679b0b6da07663df1e82f95b57adf819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 056/124] fix: adding a number to a percentage length raised
 TypeError instead of ValueError

---
 pyslet/pyslet/html40_19991224.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/html40_19991224.py b/pyslet/pyslet/html40_19991224.py
index e947734..dc817a3 100644
--- a/pyslet/pyslet/html40_19991224.py
+++ b/pyslet/pyslet/html40_19991224.py
@@ -947,7 +947,7 @@ class LengthType(object):
 		elif self.type==LengthType.Pixel:
 			self.value+=value
 		else:
-			raise ValueError("Can't add integer to non-Pixel length value: %s+&i"%(str(self),value))
+			raise ValueError("Can't add integer to non-Pixel length value: %s+%s"%(str(self),str(value)))
 
 
 class Coords:
-- 
2.43.0


From 49089bdfad1b879c9fae45b72ea2e61fd4defa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 057/124] fix: lengths could not be created from text with a
 type

---
 pyslet/pyslet/html40_19991224.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/html40_19991224.py b/pyslet/pyslet/html40_19991224.py
index dc817a3..e087863 100644
--- a/pyslet/pyslet/html40_19991224.py
+++ b/pyslet/pyslet/html40_19991224.py
@@ -878,14 +878,15 @@ class LengthType(object):
 			try:
 				strValue=value.strip()
 				v=[]
+				digits=True
 				for c in strValue:
-					if valueType is None and c.isdigit():
+					if digits and c.isdigit():
 						v.append(c)
 					elif c==u"%":
 						valueType=LengthType.Percentage
 						break
 					else:
-						valueType=LengthType.Pixel
+						digits=False
 				if valueType is None:
 					valueType=LengthType.Pixel
 				v=int(string.join(v,''))
-- 
2.43.0


From 6d8206c9c4237048bb0182a7de5f332b367a8c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 058/124] fix: every point was inside an ellipse with no size

---
 pyslet/pyslet/qtiv2/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/qtiv2/core.py b/pyslet/pyslet/qtiv2/core.py
index ece1e65..971a701 100755
--- a/pyslet/pyslet/qtiv2/core.py
+++ b/pyslet/pyslet/qtiv2/core.py
@@ -234,6 +234,9 @@ class ShapeElementMixin:
 		dy=y-self.coords.values[1].GetValue(height)
 		rx=self.coords.values[2].GetValue(width)
 		ry=self.coords.values[3].GetValue(height)
+		if abs(dx)>rx or abs(dy)>ry:
+			# also decides the case of an ellipse with no width or no height
+			return False
 		return dx*dx*ry*ry+dy*dy*rx*rx<=rx*rx*ry*ry
 		
 
-- 
2.43.0


From 2f18c700dd16f74e0549c5eec9da9206348db75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 059/124] fix: the bounds of a rectangle given by another pair
 of corners were inside out

---
 pyslet/pyslet/qtiv2/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/core.py b/pyslet/pyslet/qtiv2/core.py
index 971a701..1b76733 100755
--- a/pyslet/pyslet/qtiv2/core.py
+++ b/pyslet/pyslet/qtiv2/core.py
@@ -164,8 +164,9 @@ def CalculateShapeBounds(shape,coords):
 			i=i+1
 		return output
 	elif shape==Shape.rect:
-		return [coords[0].GetValue(1024),coords[1].GetValue(768),
-			coords[2].GetValue(1024),coords[3].GetValue(768)]
+		x0,x1=coords[0].GetValue(1024),coords[2].GetValue(1024)
+		y0,y1=coords[1].GetValue(768),coords[3].GetValue(768)
+		return [min(x0,x1),min(y0,y1),max(x0,x1),max(y0,y1)]
 	else:
 		raise ValueError("Unknown value for shape: %s"%str(shape))
 
-- 
2.43.0


From 7f3b51b4f0b3dd4b2b5dbe7ec843673d5c704de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 060/124] fix: shuffling sections raised AttributeError

---
 pyslet/pyslet/qtiv2/tests.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/tests.py b/pyslet/pyslet/qtiv2/tests.py
index 3d17299..f782c41 100755
--- a/pyslet/pyslet/qtiv2/tests.py
+++ b/pyslet/pyslet/qtiv2/tests.py
@@ -599,8 +599,8 @@ class TestForm(object):
 				for childID in b:
 					newBucket.append(childID)
 					child=self.test.GetPart(childID)
-					if isinstance(child,AssessmentSection):
-						newBucket.extend(self.Select(childID,True))
+					if isinstance(child,AssessmentSection) and expandChildren:
+						newBucket.extend(self.Select(child,True))
 						newBucket.append(u"-"+childID)	
 				i=selection.index(None)
 				selection[i:i+1]=newBucket
-- 
2.43.0


From c0104fdd13507ea9c1e81ec9ac6a873d4f3e8b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 061/124] fix: shuffling an empty invisible section raised
 IndexError or left an empty slot

---
 pyslet/pyslet/qtiv2/tests.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/tests.py b/pyslet/pyslet/qtiv2/tests.py
index f782c41..dcb320c 100755
--- a/pyslet/pyslet/qtiv2/tests.py
+++ b/pyslet/pyslet/qtiv2/tests.py
@@ -572,7 +572,7 @@ class TestForm(object):
 					newSelection=newSelection+self.Select(child,True)
 					newSelection.append(u"-"+child.identifier)
 		selection=newSelection
-		if shuffleList:
+		if None in selection:
 			# Step 5: shuffle!
 			random.shuffle(shuffleList)
 			# Expanded invisible sections may mean we have more shuffled items than free slots
@@ -586,7 +586,8 @@ class TestForm(object):
 			buckets=[]
 			for child in selection:
 				if child is None:
-					buckets.append([shuffleList[i]])
+					# the last buckets are empty if there were fewer grand-children than slots
+					buckets.append(shuffleList[i:i+1])
 					i+=1
 			while i<len(shuffleList):
 				# choose a random bucket
-- 
2.43.0


From 9c24d8cea0746d7528e3efcac848a7a40a768a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 062/124] fix: sections and items of nonlinear test parts were
 skipped

---
 pyslet/pyslet/qtiv2/tests.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/tests.py b/pyslet/pyslet/qtiv2/tests.py
index dcb320c..c1f3914 100755
--- a/pyslet/pyslet/qtiv2/tests.py
+++ b/pyslet/pyslet/qtiv2/tests.py
@@ -321,10 +321,10 @@ class SectionPart(core.QTIElement):
 	def CheckPreConditions(self,state):
 		"""Returns True if this item or section's pre-conditions are satisfied
 		or if there are no pre-conditions in effect."""
-		test=self.FindParent(AssessmentTest)
 		testPart=self.FindParent(TestPart)
 		if testPart.navigationMode!=NavigationMode.linear:
-			return None
+			# pre-conditions are not in effect
+			return True
 		for c in self.PreCondition:
 			if not c.Evaluate(state):
 				return False
-- 
2.43.0


From 61be7f9b610653caab610d35c4d9ca5b84365b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 063/124] fix: EXIT_SECTION stopped at the end of a following
 sub-section

---
 pyslet/pyslet/qtiv2/variables.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index c24d3a6..b92b00a 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -2054,6 +2054,7 @@ class TestSessionState(SessionState):
 			return len(self.form)
 		else:
 			qPos=qPos+1
+			depth=0
 			while True:
 				if qPos>=len(self.form):
 					return qPos
@@ -2064,10 +2065,13 @@ class TestSessionState(SessionState):
 				# handle the other special identifiers which move to the point just
 				# after the end of the part being exited
 				if id[0]==u"-":
-					if target==u"EXIT_SECTION":
+					if target==u"EXIT_SECTION" and depth==0:
 						return qPos
 					elif target==u"EXIT_TESTPART" and isinstance(self.test.GetPart(id[1:]),tests.TestPart):
 						return qPos
+					depth=depth-1
+				elif isinstance(self.test.GetPart(id),tests.AssessmentSection):
+					depth=depth+1
 		
 	def _NextQuestion(self):
 		if self.cQuestion is None:
-- 
2.43.0


From f03deb11662ec4a52937f9205a6417b78156d006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 064/124] fix: the questions of a section whose pre-conditions
 fail were still asked

---
 pyslet/pyslet/qtiv2/variables.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index b92b00a..473cf36 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -2133,7 +2133,11 @@ class TestSessionState(SessionState):
 						self.cQuestion=iQ
 						break
 				else:
-					# skip this item
+					# skip this item or, for a section or test part, all of its contents
+					if not isinstance(part,tests.AssessmentItemRef):
+						endId=u"-"+part.identifier
+						while self.form[iQ]!=endId:
+							iQ=iQ+1
 					iQ=iQ+1
 
 			
-- 
2.43.0


From a6cd4dae9f0ae6deeeeee604afad384891999672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 065/124] fix: two events at the same time reading got the same
 session key

---
 pyslet/pyslet/qtiv2/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 473cf36..b70dd67 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -2023,7 +2023,7 @@ class TestSessionState(SessionState):
 			self.t=time.time()
 			dt=0.0
 		hash=hashlib.sha224()
-		hash.update(self.salt+"%.6f"%self.t)
+		hash.update(self.salt+str(self.key)+"%.6f"%self.t)
 		self.key=unicode(hash.hexdigest())
 		return dt
 		
-- 
2.43.0


From dcce3fee859e1140e508c5c0de1e141a7359e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:41 +0000
Subject: [PATCH 066/124] fix: exact integer div and mod in OData expressions

---
 pyslet/pyslet/odata2/core.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 0c487b0..806c3bb 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -483,6 +483,13 @@ class BinaryExpression(CommonExpression):
 		else:
 			raise EvaluationError("Illegal operands for mul")
 	
+	@staticmethod
+	def IntegerDiv(n,d):
+		"""Integer division of *n* by *d*, truncating towards zero.  The
+		calculation is exact, floating point can't represent all Edm.Int64 values."""
+		q=abs(n)//abs(d)
+		return -q if (n<0)!=(d<0) else q
+
 	def EvaluateDiv(self,lValue,rValue):
 		try:
 			typeCode=self.PromoteOperands(lValue,rValue)
@@ -499,8 +506,8 @@ class BinaryExpression(CommonExpression):
 				result=edm.EDMValue.NewSimpleValue(typeCode)
 				if lValue and rValue:
 					# OData doesn't really specify integer division rules so
-					# we use floating point division and truncate towards zero
-					result.SetFromValue(int(float(lValue.value)/float(rValue.value)))
+					# we truncate towards zero
+					result.SetFromValue(self.IntegerDiv(lValue.value,rValue.value))
 				return result
 			elif typeCode is None:	# null div null
 				return edm.EDMValue.NewSimpleValue(edm.SimpleType.Int32)
@@ -524,9 +531,8 @@ class BinaryExpression(CommonExpression):
 				rValue=rValue.SimpleCast(typeCode)
 				result=edm.EDMValue.NewSimpleValue(typeCode)
 				if lValue and rValue:
-					# OData doesn't really specify integer division rules so
-					# we use floating point division and truncate towards zero
-					result.SetFromValue(int(math.fmod(float(lValue.value),float(rValue.value))))
+					# the remainder from the division that truncates towards zero
+					result.SetFromValue(lValue.value-rValue.value*self.IntegerDiv(lValue.value,rValue.value))
 				return result
 			elif typeCode is None:	# null div null
 				return edm.EDMValue.NewSimpleValue(edm.SimpleType.Int32)
-- 
2.43.0


From dd1b1ef52349d5c64874114cc8aabb9befd3e7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:41 +0000
Subject: [PATCH 067/124] fix: mod of Edm.Decimal values must not go through
 floating point

---
 pyslet/pyslet/odata2/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 806c3bb..4f5b0d5 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -524,7 +524,11 @@ class BinaryExpression(CommonExpression):
 				rValue=rValue.SimpleCast(typeCode)
 				result=edm.EDMValue.NewSimpleValue(typeCode)
 				if lValue and rValue:
-					result.SetFromValue(math.fmod(lValue.value,rValue.value))
+					if typeCode==edm.SimpleType.Decimal:
+						# like fmod, the result takes the sign of the dividend
+						result.SetFromValue(lValue.value%rValue.value)
+					else:
+						result.SetFromValue(math.fmod(lValue.value,rValue.value))
 				return result
 			elif typeCode in (edm.SimpleType.Int32, edm.SimpleType.Int64):
 				lValue=lValue.SimpleCast(typeCode)
@@ -538,7 +542,7 @@ class BinaryExpression(CommonExpression):
 				return edm.EDMValue.NewSimpleValue(edm.SimpleType.Int32)
 			else:
 				raise EvaluationError("Illegal operands for div")
-		except (ZeroDivisionError,ValueError) as e:
+		except (ZeroDivisionError,ValueError,decimal.InvalidOperation) as e:
 			raise EvaluationError(str(e))
 				
 	def EvaluateAdd(self,lValue,rValue):
-- 
2.43.0


From 7f23711e47c6d401ac04e0d1f422211a62ba9c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:41 +0000
Subject: [PATCH 068/124] fix: relations with a null String, DateTime or Guid
 operand are false

---
 pyslet/pyslet/odata2/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 4f5b0d5..edc8abc 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -602,7 +602,11 @@ class BinaryExpression(CommonExpression):
 			return result
 		elif typeCode in (edm.SimpleType.String, edm.SimpleType.DateTime, edm.SimpleType.Guid):
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Boolean)
-			result.SetFromValue(relation(lValue.value,rValue.value))
+			if lValue and rValue:
+				result.SetFromValue(relation(lValue.value,rValue.value))
+			else:
+				# one of the operands is null => False
+				result.SetFromValue(False)
 			return result
 		elif typeCode is None:	# e.g., null lt null
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Boolean)
-- 
2.43.0


From 53cf6a84207d6c2422637016b840604fb50e5cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 069/124] fix: ValueError, not TypeError, for a dateTime or
 time literal ending in a point

---
 pyslet/pyslet/odata2/csdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 89397a7..6792177 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -603,7 +603,7 @@ class Parser(xsi.BasicParser):
 			if self.Parse(":"):
 				second=self.RequireProduction(self.ParseInteger(0,60,2),"second")
 				if self.Parse("."):
-					nano=self.ParseDigits(1,7)
+					nano=self.RequireProduction(self.ParseDigits(1,7),"fractional seconds")
 					second+=float("0."+nano)					
 			else:
 				second=0
@@ -703,7 +703,7 @@ class Parser(xsi.BasicParser):
 			if self.Parse(":"):
 				second=self.RequireProduction(self.ParseInteger(0,60,2),"second")
 				if self.Parse("."):
-					nano=self.ParseDigits(1,7)
+					nano=self.RequireProduction(self.ParseDigits(1,7),"fractional seconds")
 					second+=float("0."+nano)					
 			else:
 				second=0
-- 
2.43.0


From 1d0790f67b5d85e5ceae35e84202179e5df3873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 070/124] fix: formatting a NULL simple value raises ValueError

---
 pyslet/pyslet/odata2/csdl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 6792177..a4badd2 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -817,6 +817,7 @@ class SimpleValue(EDMValue):
 			self.typeCode=pDef.simpleTypeCode		#: the :py:class:`SimpleType` code
 		else:
 			self.typeCode=None
+		self.name=pDef.name if pDef else None	#: the name of the property, for error messages
 		self.mType=None		#: an optional :py:class:`pyslet.rfc2616.MediaType` representing this value
 		self.value=None
 		"""The actual value or None if this instance represents a NULL value
-- 
2.43.0


From 5b5f7c21840e06a398349f144ae942b27e2419f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 071/124] fix: SimpleValue.Copy refers to undefined names

---
 pyslet/pyslet/odata2/csdl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index a4badd2..7f7437a 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -924,10 +924,10 @@ class SimpleValue(EDMValue):
 	@classmethod
 	def Copy(cls,value):
 		"""Constructs a new SimpleValue instance by copying *value*"""
-		if self.pDef:
-			result=value.__class__(self.pDef)
+		if value.pDef:
+			result=value.__class__(value.pDef)
 		else:
-			result=EdmValue.NewSimpleValue(self.typeCode)
+			result=EDMValue.NewSimpleValue(value.typeCode)
 		result.value=value.value
 		return result
 
-- 
2.43.0


From c8823d92dfcf8745040a732e15a20df9307ed891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 072/124] fix: raise ValueError when an Edm.Time value is out
 of range

---
 pyslet/pyslet/odata2/csdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 7f7437a..503fcf1 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -1244,14 +1244,14 @@ class TimeValue(SimpleValue):
 			self.value=newValue			
 		elif (isinstance(newValue,decimal.Decimal) or type(newValue) in (IntType, LongType, FloatType)) and newValue>=0:
 			if newValue<0:
-				raise("Can't set Time from %.3f"%float(newValue))
+				raise ValueError("Can't set Time from %.3f"%float(newValue))
 			tValue=iso8601.Time()
 			if type(newValue) in (IntType,LongType):
 				tValue,days=tValue.Offset(newValue)
 			else:
 				tValue,days=tValue.Offset(float(newValue))
 			if days>0:
-				raise("Can't set Time from %.3f (overflow)"%float(newValue))
+				raise ValueError("Can't set Time from %.3f (overflow)"%float(newValue))
 			self.value=tValue
 		else:
 			raise TypeError("Can't set Time from %s"%repr(newValue))
-- 
2.43.0


From 255815d44b152489a1e1c1ea08f48699f4c84e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 073/124] fix: DateTimeOffset set from a unix time is in UTC

---
 pyslet/pyslet/odata2/csdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 503fcf1..99bd593 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -1196,7 +1196,7 @@ class DateTimeOffsetValue(SimpleValue):
 				raise ValueError("DateTimeOffset requires a complete representation: %s"%str(newValue))
 			self.value=newValue	
 		elif (isinstance(newValue,decimal.Decimal) or type(newValue) in (IntType, LongType, FloatType)) and newValue>=0:
-			self.value=iso8601.TimePoint.FromUnixTime(float(newValue))
+			self.value=iso8601.TimePoint.FromUnixTime(float(newValue)).WithZone(zDirection=0)
 		else:
 			raise TypeError("Can't set DateTimeOffset from %s"%str(newValue))
 
-- 
2.43.0


From ca6839c60cf241ca5f074b0676e12dfb2b58ef70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 074/124] fix: casting an untyped NULL must replace the
 target's value

---
 pyslet/pyslet/odata2/csdl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 99bd593..3772834 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -874,6 +874,8 @@ class SimpleValue(EDMValue):
 			# newValue=EDMValue.NewValue(newTypeCode,self.name)
 			if self.typeCode is not None:
 				targetValue.SetFromValue(copy.deepcopy(self.value))
+			else:
+				targetValue.SetNull()
 		return targetValue
 					
 	def SetFromSimpleValue(self,newValue):
-- 
2.43.0


From ac0dc16eed495057cb4043a56db95fb1dafb1129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 075/124] fix: OData unary operators as operands of unary and
 member operators

---
 pyslet/pyslet/odata2/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index edc8abc..ec345d8 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1185,7 +1185,8 @@ class Parser(edm.Parser):
 			# rightOp (an operator expression, never None)
 			# next job, determine who binds more tightly, left or right?
 			while True:
-				if leftOp is None or leftOp<rightOp:
+				if leftOp is None or operand is None or leftOp<rightOp:
+					# (a unary operator has no operand that could bind to the left)
 					# bind the operand to the right, in cases of equal precedence we left associate 1+2-3 = (1+2)-3
 					if operand is not None:
 						rightOp.AddOperand(operand)
-- 
2.43.0


From 002e16001ff142d16361796a5f0b3ab932870260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 076/124] fix: 'not' is not a binary OData operator

---
 pyslet/pyslet/odata2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index ec345d8..5b71b47 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1158,7 +1158,7 @@ class Parser(edm.Parser):
 					if name is not None:
 						try:
 							opCode=Operator.DecodeValue(name)
-							if opCode in Operator.IsSpecial:
+							if opCode in Operator.IsSpecial or opCode==Operator.boolNot:
 								raise ValueError
 							rightOp=BinaryExpression(opCode)
 						except ValueError:
-- 
2.43.0


From b16b8a16790289aa17c9f5c43507cf6419be06ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 077/124] fix: formatting of nested OData expressions and of
 isof, cast

---
 pyslet/pyslet/odata2/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 5b71b47..4c5793f 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -390,9 +390,12 @@ class BinaryExpression(CommonExpression):
 				op=","
 				opSuffix=")"
 			else:
-				raise ValueError("Can't format %s as a binary operator"&Operator.EncodeValue(self.operator))
+				raise ValueError("Can't format %s as a binary operator"%Operator.EncodeValue(self.operator))
 		else:
 			op=u" %s "%Operator.EncodeValue(self.operator)
+		if self.operator in (Operator.cast,Operator.isof):
+			# already enclosed by brackets and the first operand is optional
+			return opPrefix+string.join(map(lambda x:unicode(x),self.operands),op)+opSuffix
 		lValue=self.operands[0]
 		rValue=self.operands[1]
 		if lValue.operator is not None and lValue<self:
@@ -400,8 +403,10 @@ class BinaryExpression(CommonExpression):
 			lValue="(%s)"%unicode(lValue)
 		else:
 			lValue=unicode(lValue)
-		if rValue.operator is not None and rValue<self:
-			# right expression is weaker than us, use brackets
+		if rValue.operator is not None and (rValue<self or
+			(isinstance(rValue,BinaryExpression) and not rValue>self)):
+			# right expression is weaker than us, use brackets (and if it is
+			# equal too, as operators associate to the left)
 			rValue="(%s)"%unicode(rValue)
 		else:
 			rValue=unicode(rValue)
-- 
2.43.0


From 4e36816f23cec8dfc4f0b7e6ec24ee0f0e7c88ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 078/124] fix: -(1F) and -1F are different OData expressions

---
 pyslet/pyslet/odata2/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 4c5793f..821fa64 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -320,8 +320,10 @@ class UnaryExpression(CommonExpression):
 		else:
 			op=u"%s "%Operator.EncodeValue(self.operator)
 		rValue=self.operands[0]
-		if rValue.operator is not None and rValue<self:
-			# right expression is weaker than us, use brackets
+		if (rValue.operator is not None and rValue<self) or (
+			self.operator==Operator.negate and isinstance(rValue,LiteralExpression)):
+			# right expression is weaker than us, or a literal that would be
+			# mistaken for a negative one: use brackets
 			result="%s(%s)"%(op,unicode(rValue))
 		else:
 			result="%s%s"%(op,unicode(rValue))
-- 
2.43.0


From afeb0f2bad06b9276e9182c05d6a8963dcc70f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 079/124] fix: properties with names like time, guid and info
 in OData expressions

---
 pyslet/pyslet/odata2/core.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 821fa64..9dcf81b 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1451,6 +1451,12 @@ class Parser(edm.Parser):
 			return self.ParseStringURILiteral()
 		elif name is None and self.MatchOne('-.0123456789'):
 			# one of the number forms (perhaps)
+			if self.Parse("-"):
+				name=self.ParseSimpleIdentifier()
+				self.SetPos(savePos)
+				if name is not None and name.lower() not in ("infd","inff"):
+					# the negation of a property, or function, not a literal
+					return None
 			num=self.ParseNumericLiteral()
 			if num is None:
 				# must be something like "." or "-" on its own, not a literal
@@ -1483,7 +1489,7 @@ class Parser(edm.Parser):
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Boolean)
 			result.value=False
 			return result
-		elif name=="datetimeoffset":
+		elif name=="datetimeoffset" and self.Match("'"):
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.DateTimeOffset)
 			production="datetimeoffset literal"
 			self.Require("'",production)
@@ -1491,7 +1497,7 @@ class Parser(edm.Parser):
 			self.Require("'",production)
 			result.SetFromLiteral(dtoString)
 			return result
-		elif name=="datetime":
+		elif name=="datetime" and self.Match("'"):
 			production="datetime literal"
 			self.Require("'",production)
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.DateTime)
@@ -1499,7 +1505,7 @@ class Parser(edm.Parser):
 			self.Require("'",production)
 			result.value=value
 			return result
-		elif name=="time":
+		elif name=="time" and self.Match("'"):
 			production="time literal"
 			self.Require("'",production)
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Time)
@@ -1507,7 +1513,7 @@ class Parser(edm.Parser):
 			self.Require("'",production)
 			result.value=value
 			return result
-		elif nameCase=="X" or name=="binary":
+		elif (nameCase=="X" or name=="binary") and self.Match("'"):
 			self.Require("'","binary")
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Binary)
 			value=self.ParseBinaryLiteral()
@@ -1530,7 +1536,7 @@ class Parser(edm.Parser):
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Single)
 			result.value=float("INF")
 			return result
-		elif name=="guid":
+		elif name=="guid" and self.Match("'"):
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Guid)
 			self.Require("'","guid")
 			hex=[]
-- 
2.43.0


From 6a2b5f4c4a601ec533a5f7ea4edbfeea794ae31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 080/124] fix: unescape OData key predicates, whose values may
 contain any character

---
 pyslet/pyslet/odata2/core.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 9dcf81b..d9c4fb2 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1971,26 +1971,24 @@ class ODataURI:
 			return segment,None
 		elif '(' in segment and segment[-1]==')':
 			name=uri.UnescapeData(segment[:segment.index('(')]).decode('utf-8')
-			keys=segment[segment.index('(')+1:-1]
+			keys=uri.UnescapeData(segment[segment.index('(')+1:-1]).decode('utf-8')
+			keyPredicate={}
 			if keys=='':
-				keys=[]
-			else:
-				keys=keys.split(',')
-			if len(keys)==0:
-				return name,{}
-			elif len(keys)==1 and '=' not in keys[0]:
-				return name,{u'':ParseURILiteral(keys[0])}
-			else:
-				keyPredicate={}
-				for k in keys:
-					nv=k.split('=')
-					if len(nv)!=2:
-						raise ValueError("unrecognized key predicate: %s"%repr(keys))
-					kname,value=nv
-					kname=uri.UnescapeData(kname).decode('utf-8')
-					kvalue=ParseURILiteral(value)
-					keyPredicate[kname]=kvalue
 				return name,keyPredicate
+			p=Parser(keys)
+			while True:
+				savePos=p.pos
+				kname=p.ParseSimpleIdentifier()
+				if kname is None or not p.Parse('='):
+					if keyPredicate:
+						raise ValueError("unrecognized key predicate: %s"%repr(keys))
+					# a single, unnamed, value
+					p.SetPos(savePos)
+					return name,{u'':p.RequireProductionEnd(p.ParseURILiteral(),"uri literal")}
+				keyPredicate[kname]=p.RequireProduction(p.ParseURILiteral(),"uri literal")
+				if not p.Parse(','):
+					p.RequireEnd("key predicate")
+					return name,keyPredicate
 		else:
 			return uri.UnescapeData(segment).decode('utf-8'),None
 	
-- 
2.43.0


From b72de0150dac55a01c8586e822f6d66e46462877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 081/124] fix: unescape the values of service operation
 parameters

---
 pyslet/pyslet/odata2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index d9c4fb2..2ec6a6e 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1996,7 +1996,7 @@ class ODataURI:
 		if paramName in self.paramTable:
 			paramDef=self.queryOptions[self.paramTable[paramName]]
 			# must be a primitive type
-			return ParseURILiteral(paramDef[paramDef.index('=')+1:])
+			return ParseURILiteral(uri.UnescapeData(paramDef[paramDef.index('=')+1:]))
 		else:
 			raise KeyError("Missing service operation, or custom parameter: %s"%paramName)
 	
-- 
2.43.0


From 8233263713c7a76ae015b45c9a03e61c416c358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:24 +0000
Subject: [PATCH 082/124] fix: check OData path options where they appear

---
 pyslet/pyslet/odata2/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 2ec6a6e..aa13220 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1876,13 +1876,13 @@ class ODataURI:
 				elif segment.startswith("$"):
 					try:
 						pathOption=PathOption.DecodeLowerValue(segment[1:])
-					except KeyError:
+					except ValueError:
 						raise InvalidPathOption(segment)
 					if self.pathOption is not None:
 						raise InvalidPathOption("%s must not be used with $%s"%(segment,PathOption.EncodeValue(self.pathOption)))
-					if self.navPath and self.pathOption in (PathOption.batch,PathOption.metadata):
-						raise InvalidPathOption("$%s must be the only path segment"%PathOption.EncodeValue(self.pathOption))						
-					elif self.pathOption==PathOption.links:
+					if self.navPath and pathOption in (PathOption.batch,PathOption.metadata):
+						raise InvalidPathOption("$%s must be the only path segment"%PathOption.EncodeValue(pathOption))						
+					elif pathOption==PathOption.links:
 						if not self.navPath:
 							raise InvalidPathOption("resource path must not start with $links")
 					self.pathOption=pathOption
-- 
2.43.0


From be3b855567b19e90be48a8a20b10446806f95996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:24 +0000
Subject: [PATCH 083/124] fix: a system query option without a value is an
 InvalidSystemQueryOption

---
 pyslet/pyslet/odata2/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index aa13220..a831503 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1847,6 +1847,8 @@ class ODataURI:
 			rawOptions=dsURI.query.split('&')
 			for paramDef in rawOptions:
 				if paramDef.startswith('$'):
+					if '=' not in paramDef:
+						raise InvalidSystemQueryOption("%s : missing value"%paramDef)
 					paramName=uri.UnescapeData(paramDef[1:paramDef.index('=')]).decode('utf-8')
 					param,paramValue=self.ParseSystemQueryOption(paramName,
 						uri.UnescapeData(paramDef[paramDef.index('=')+1:]).decode('utf-8'))
-- 
2.43.0


From fd80d9220fc4b3fc953928f38fae702dfcbcc304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:24 +0000
Subject: [PATCH 084/124] fix: the OData path prefix ends at a path segment

---
 pyslet/pyslet/odata2/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index a831503..d98d3ae 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1838,7 +1838,8 @@ class ODataURI:
 		if dsURI.absPath is None:
 			#	both dsURI and pathPrefix are relative, this is an error
 			raise ValueError("pathPrefix cannot be relative: %s"%pathPrefix)
-		if pathPrefix and not dsURI.absPath.startswith(pathPrefix):
+		if pathPrefix and (not dsURI.absPath.startswith(pathPrefix) or
+			dsURI.absPath[len(pathPrefix):][:1] not in ('','/')):
 			# this is not a URI we own
 			return
 		#
-- 
2.43.0


From 1aeac7dee44c197f73e4bcdaeece8b232653428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:38 +0000
Subject: [PATCH 085/124] fix: Edm.Time values are set from seconds since
 midnight, not hours

---
 pyslet/pyslet/odata2/csdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 3772834..1f1359d 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -1249,9 +1249,9 @@ class TimeValue(SimpleValue):
 				raise ValueError("Can't set Time from %.3f"%float(newValue))
 			tValue=iso8601.Time()
 			if type(newValue) in (IntType,LongType):
-				tValue,days=tValue.Offset(newValue)
+				tValue,days=tValue.Offset(seconds=newValue)
 			else:
-				tValue,days=tValue.Offset(float(newValue))
+				tValue,days=tValue.Offset(seconds=float(newValue))
 			if days>0:
 				raise ValueError("Can't set Time from %.3f (overflow)"%float(newValue))
 			self.value=tValue
-- 
2.43.0


From 168c09609faa8a60369de0e6fa894180af851f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:33 +0000
Subject: [PATCH 086/124] fix: OData expressions that start with a unary
 expression in brackets

---
 pyslet/pyslet/odata2/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index d98d3ae..a62918e 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1153,7 +1153,8 @@ class Parser(edm.Parser):
 					# no common expression found at all
 					return None
 			# if we already have a (unary) operator, skip the search for a binary operator
-			if not isinstance(rightOp,UnaryExpression):
+			# (a unary operator in brackets has its operand already)
+			if not isinstance(rightOp,UnaryExpression) or rightOp.operands:
 				operand=rightOp
 				self.ParseWSP()
 				if self.Parse("/"):
-- 
2.43.0


From 8b75c4811187087eadab43ed620ae3a9720e7999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:33 +0000
Subject: [PATCH 087/124] fix: unclosed brackets in OData expressions

---
 pyslet/pyslet/odata2/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index a62918e..69402ef 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1143,7 +1143,7 @@ class Parser(edm.Parser):
 			if rightOp is None:
 				if self.Parse("("):
 					rightOp=self.RequireProduction(self.ParseCommonExpression(),"commonExpression inside parenExpression")
-					self.RequireProduction(self.Parse(")"),"closing bracket in parenExpression")
+					self.Require(")","closing bracket in parenExpression")
 				elif self.Parse("-"):
 					rightOp=UnaryExpression(Operator.negate)
 				elif leftOp:
@@ -1215,7 +1215,7 @@ class Parser(edm.Parser):
 			
 	def ParseMethodCallExpression(self,methodCall):
 		method=CallExpression(methodCall)
-		self.RequireProduction(self.Parse("("),"opening bracket in methodCallExpression")
+		self.Require("(","opening bracket in methodCallExpression")
 		while True:
 			self.ParseWSP()
 			param=self.RequireProduction(self.ParseCommonExpression(),"methodCall argument")
@@ -1241,12 +1241,12 @@ class Parser(edm.Parser):
 				# first parameter omitted
 				stringParam=firstParam
 			else:
-				self.RequireProduction(self.Parse(","),"',' in %s"%name)
+				self.Require(",","',' in %s"%name)
 				self.ParseWSP()
 				stringParam=self.RequireProduction(self.ParseCommonExpression(),"%s argument"%name)
 				e.AddOperand(stringParam)
 				self.ParseWSP()
-				self.RequireProduction(self.Parse(")"),"')' after %s"%name)
+				self.Require(")","')' after %s"%name)
 			# Final check, the string parameter must be a string literal!
 			if not isinstance(stringParam,LiteralExpression) or stringParam.value.typeCode!=edm.SimpleType.String:
 				raise ValueError("%s requires string literal")
-- 
2.43.0


From 06f809767f2d94479bcadca6bb6d25179e7d4702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:33 +0000
Subject: [PATCH 088/124] fix: the hyphens of a guid literal are required

---
 pyslet/pyslet/odata2/csdl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 1f1359d..11f7a60 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -629,13 +629,13 @@ class Parser(xsi.BasicParser):
 			# dddddddd-dddd-dddd-dddd-dddddddddddd where each d represents [A-Fa-f0-9]
 			guid=[]
 			guid.append(self.RequireProduction(self.ParseHexDigits(8,8),production))
-			self.RequireProduction(self.Parse('-'))
+			self.Require('-',production)
 			guid.append(self.RequireProduction(self.ParseHexDigits(4,4),production))
-			self.RequireProduction(self.Parse('-'))
+			self.Require('-',production)
 			guid.append(self.RequireProduction(self.ParseHexDigits(4,4),production))
-			self.RequireProduction(self.Parse('-'))
+			self.Require('-',production)
 			guid.append(self.RequireProduction(self.ParseHexDigits(4,4),production))
-			self.RequireProduction(self.Parse('-'))
+			self.Require('-',production)
 			guid.append(self.RequireProduction(self.ParseHexDigits(12,12),production))
 			value=uuid.UUID(string.join(guid,''))
 		except ValueError:
-- 
2.43.0


From 78fad9431295beb291f4ab0608f51c08372a4b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:28 +0000
Subject: [PATCH 089/124] fix: formatting of floating point literals with
 positive exponents

---
 pyslet/pyslet/odata2/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 69402ef..c12c13c 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -764,9 +764,10 @@ class LiteralExpression(CommonExpression):
 			elif self.value.typeCode==edm.SimpleType.Decimal:
 				result=result+"M"
 			elif self.value.typeCode==edm.SimpleType.Double:
-				result=result+"D"
+				# a sign in the exponent is only allowed if it is negative
+				result=result.replace('+','')+"D"
 			elif self.value.typeCode==edm.SimpleType.Single:
-				result=result+"F"
+				result=result.replace('+','')+"F"
 			elif self.value.typeCode==edm.SimpleType.Guid:
 				result="guid'%s'"%result
 			elif self.value.typeCode==edm.SimpleType.Int64:
-- 
2.43.0


From 6578ba00c13be8585d702ebf08bbc173c779e0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:40 +0000
Subject: [PATCH 090/124] fix: comparing a date or time value with a NULL one

---
 pyslet/pyslet/odata2/csdl.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 11f7a60..0a1c968 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -888,7 +888,13 @@ class SimpleValue(EDMValue):
 		have values that compare equal."""
 		if isinstance(other,SimpleValue):
 			# are the types compatible? lazy comparison to start with
-			return self.typeCode==other.typeCode and self.value==other.value			
+			if self.typeCode!=other.typeCode:
+				return False
+			elif self.value is None or other.value is None:
+				# dates and times don't compare with None
+				return self.value is other.value
+			else:
+				return self.value==other.value
 		else:
 			return self.value==other
 	
-- 
2.43.0


From 88444606f6994b082c67366094409716f05c6eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:40 +0000
Subject: [PATCH 091/124] fix: constructing a simple value from a Time

---
 pyslet/pyslet/odata2/csdl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 0a1c968..54fbe0a 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -791,6 +791,8 @@ class EDMValue(object):
 				result=cls.NewSimpleValue(SimpleType.DateTime)
 			else:
 				result=cls.NewSimpleValue(SimpleType.DateTimeOffset)
+		elif isinstance(value,iso8601.Time):
+			result=cls.NewSimpleValue(SimpleType.Time)
 		elif isinstance(value,decimal.Decimal):
 			result=cls.NewSimpleValue(SimpleType.Decimal)
 		elif isinstance(value,datetime.datetime):
-- 
2.43.0


From 91c85cc987f389d799ba007231a1171e52e0bd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:38 +0000
Subject: [PATCH 092/124] fix: malformed or cut off date, time and duration
 strings raised TypeError or AttributeError

---
 pyslet/pyslet/iso8601.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 09235c4..eca4476 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -2682,7 +2682,7 @@ class ISO8601Parser(RFC2234CoreParser):
 		d,df=self.ParseDateFormat(base)
 		if not d.Complete():
 			raise DateTimeError("incomplete date in time point %s"%str(d))
-		if self.theChar not in tDesignators:
+		if self.theChar is None or self.theChar not in tDesignators:
 			raise DateTimeError("time-point requires time %s..."%str(d))
 		tDesignator=self.theChar
 		t,overflow,tf=self.ParseTimeFormat(None,tDesignators)
@@ -2854,6 +2854,8 @@ class ISO8601Parser(RFC2234CoreParser):
 						return Date(year=v1,week=v2,weekday=v3,base=base),"-YWwwD"
 					else:
 						return Date(year=v1,week=v2,base=base),"-YWww"
+				else:
+					self.SyntaxError("expected digit, hyphen or W in truncated ISO date")
 			elif self.theChar=="-":
 				self.NextChar()
 				if IsDIGIT(self.theChar):
@@ -3126,7 +3128,7 @@ class ISO8601Parser(RFC2234CoreParser):
 			self.SyntaxError("expected digit or hyphen in ISO date")
 	
 	def ParseTimeFormat(self,base=None,tDesignators="T"):
-		if self.theChar in tDesignators:
+		if self.theChar is not None and self.theChar in tDesignators:
 			self.NextChar()
 			tDesignator=1
 		else:
@@ -3241,6 +3243,8 @@ class ISO8601Parser(RFC2234CoreParser):
 			else:
 				self.SyntaxError("expected digit or hyphen in truncated Time")
 			# truncated forms cannot take timezones, return early
+			if base is None:
+				raise DateTimeError("truncated time requires base")
 			t,overflow=base.Extend(hour=hour,minute=minute,second=second)
 			return t,overflow,tFormat
 		else:
@@ -3451,7 +3455,7 @@ class ISO8601Parser(RFC2234CoreParser):
 		value=self.ParseDIGITRepeat()
 		if value is None:
 			return None,None
-		if self.theChar in ".,":
+		if self.theChar is not None and self.theChar in ".,":
 			if not allowFraction:
 				raise DateTimeError("fractional component in duration must have lowest order")										
 			format="n"+self.theChar+"n"			
-- 
2.43.0


From e318e6e588421920c0605863411eb82e1bda8e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:38 +0000
Subject: [PATCH 093/124] fix: a malformed DateTimeOffset literal is a
 ValueError

---
 pyslet/pyslet/odata2/csdl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 54fbe0a..80d1d55 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -11,6 +11,7 @@ import pyslet.rfc2616 as http
 import pyslet.xsdatatypes20041028 as xsi
 from pyslet.vfs import OSFilePath
 import pyslet.iso8601 as iso8601
+from pyslet.rfc2234 import RFCSyntaxError
 import logging
 
 import string, itertools, StringIO, sys, copy, decimal, hashlib, uuid, math, collections, warnings, pickle, datetime
@@ -1191,7 +1192,7 @@ class DateTimeOffsetValue(SimpleValue):
 	def SetFromLiteral(self,value):
 		try:
 			value=iso8601.TimePoint.FromString(value)
-		except iso8601.DateTimeError as e:
+		except (iso8601.DateTimeError,RFCSyntaxError) as e:
 			raise ValueError(str(e))
 		self.SetFromValue(value)
 
-- 
2.43.0


From cfb17047343fe6acf5dc972a8a78e10ba604c142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:09 +0000
Subject: [PATCH 094/124] fix: tabs and line feeds in attribute values are
 escaped

---
 pyslet/pyslet/xml20081126/structures.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 5cf8839..458a696 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -61,7 +61,8 @@ def EscapeCharData(src,quote=False):
 	"""Returns a unicode string with XML reserved characters escaped.
 	
 	We also escape return characters to prevent them being ignored.  If quote
-	is True then the string is returned as a quoted attribute value."""
+	is True then the string is returned as a quoted attribute value and tabs and
+	line feeds are escaped too (they would otherwise be read as spaces)."""
 	data=[]
 	apos=0;quot=0
 	for c in src:
@@ -73,6 +74,10 @@ def EscapeCharData(src,quote=False):
 			data.append('&gt;')
 		elif c=='\r':
 			data.append('&#xD;')
+		elif quote and c=='\n':
+			data.append('&#xA;')
+		elif quote and c=='\t':
+			data.append('&#x9;')
 		elif c=='"':
 			quot+=1
 			data.append(c)
@@ -132,6 +137,10 @@ def EscapeCharData7(src,quote=False):
 			dst.append("&gt;")
 		elif c=='\r':
 			dst.append("&#xD;")
+		elif quote and c=='\n':
+			dst.append("&#xA;")
+		elif quote and c=='\t':
+			dst.append("&#x9;")
 		elif c==q:
 			dst.append(qStr)
 		else:
-- 
2.43.0


From 543513d1ba4b18f695c076ef125e30a4d3d38a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:09 +0000
Subject: [PATCH 095/124] fix: EscapeCDSect starts CDATA sections with
 <![CDATA[

---
 pyslet/pyslet/xml20081126/structures.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 458a696..7285abe 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -760,16 +760,16 @@ def IsPubidChar(c):
 
 
 def EscapeCDSect(src):
-	"""Returns a unicode string enclosed in <!CDATA[[ ]]> with ]]> 
-	by the clumsy sequence: ]]>]]&gt;<!CDATA[[
+	"""Returns a unicode string enclosed in <![CDATA[ ]]> with ]]> replaced
+	by the clumsy sequence: ]]>]]&gt;<![CDATA[
 	
 	Degenerate case: an empty string is returned as an empty string
 	"""
 	data=src.split(u']]>')
 	if data:
-		result=[u'<!CDATA[[',data[0]]
+		result=[u'<![CDATA[',data[0]]
 		for d in data[1:]:
-			result.append(u']]>]]&gt;<!CDATA[[')
+			result.append(u']]>]]&gt;<![CDATA[')
 			result.append(d)
 		result.append(u']]>')
 		return string.join(result,u'')
-- 
2.43.0


From f712f9e7c937451e0629eccf8c2edf514870d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:09 +0000
Subject: [PATCH 096/124] fix: the UTF-8 byte order mark is detected

---
 pyslet/pyslet/xml20081126/structures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 7285abe..80053af 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -2849,8 +2849,8 @@ class XMLEntity(object):
 		'\x00\x3c\x00\x00':('utf_32_le',0,False),		# UCS-4 or other encoding with an unusual 32-bit code unit		
 		'\x00\x3c\x00\x3f':('utf_16_be',0,False),		# UTF-16BE or big-endian ISO-10646-UCS-2 or other encoding with a 16-bit code unit
 		'\x3c\x00\x3f\x00':('utf_16_le',0,False),		# UTF-16LE or little-endian ISO-10646-UCS-2 or other encoding with a 16-bit code unit
-		'\3c\x3f\x78\x6D':('utf_8',0,False),			# UTF-8, ISO 646, ASCII or similar
-		'\4c\x6f\xa7\x94':('cp500',0,False)				# EBCDIC (in some flavor)
+		'\x3c\x3f\x78\x6D':('utf_8',0,False),			# UTF-8, ISO 646, ASCII or similar
+		'\x4c\x6f\xa7\x94':('cp500',0,False)				# EBCDIC (in some flavor)
 		}
 					
 	def AutoDetectEncoding(self,srcFile):
@@ -2865,7 +2865,7 @@ class XMLEntity(object):
 			if magic[2:]!='\x00\x00':
 				magic=magic[:2]
 		elif magic[:3]=='\xef\xbb\xbf':
-			magic=mage[:3]
+			magic=magic[:3]
 		self.encoding,seekPos,self.bom=self.MagicTable.get(magic,('utf-8',0,False))
 		srcFile.seek(seekPos)
 	
-- 
2.43.0


From ba9bb0e989bef404a678df78cd7c978f06e8ed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:09 +0000
Subject: [PATCH 097/124] fix: processing instructions end at the first ?> and
 must have a target and an end

---
 pyslet/pyslet/xml20081126/parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 78a68d0..c204907 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -872,7 +872,7 @@ class XMLParser:
 		dEntity=self.entity
 		target=self.ParsePITarget()
 		if self.ParseS():
-			while self.theChar is not None:
+			while True:
 				if self.theChar=='?':
 					self.NextChar()
 					if self.theChar=='>':
@@ -881,8 +881,13 @@ class XMLParser:
 					else:
 						# just a single '?'
 						data.append('?')
-				data.append(self.theChar)
-				self.NextChar()
+				elif self.theChar is None:
+					if not self.dontCheckWellFormedness:
+						self.WellFormednessError(production+": Unexpected end of file")
+					break
+				else:
+					data.append(self.theChar)
+					self.NextChar()
 		else:
 			self.CheckPEBetweenDeclarations(dEntity)
 			self.ParseRequiredLiteral('?>',production)
@@ -893,7 +898,7 @@ class XMLParser:
 
 	def ParsePITarget(self):
 		"""[17] PITarget: parses a processing instruction target name"""
-		name=self.ParseName()
+		name=self.ParseRequiredName("[17] PITarget")
 		if name.lower()=='xml':
 			self.BuffText(name)
 			self.WellFormednessError("[17] PITarget: Illegal target: %s"%name)
-- 
2.43.0


From ed602f03247a0a2d294ffe233cda98eb18d2cbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:09 +0000
Subject: [PATCH 098/124] fix: comments must end with -->

---
 pyslet/pyslet/xml20081126/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index c204907..e2493f1 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -844,6 +844,8 @@ class XMLParser:
 				if nHyphens<2:
 					data.append('-'*nHyphens+self.theChar)
 					nHyphens=0
+				elif not self.dontCheckWellFormedness:
+					self.WellFormednessError("-- in Comment")
 				# space does not change the hyphen count
 				self.NextChar()
 			else:
@@ -854,6 +856,9 @@ class XMLParser:
 					nHyphens=0
 				data.append(self.theChar)
 				self.NextChar()
+		else:
+			if not self.dontCheckWellFormedness:
+				self.WellFormednessError(production+": Unexpected end of file")
 		return string.join(data,'')
 				
 	def ParsePI(self,gotLiteral=False):
-- 
2.43.0


From 3803c3757b4f18eb635e4e781ba2e849cc4df363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 099/124] fix: the parser no longer hangs on ]]> in content

---
 pyslet/pyslet/xml20081126/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index e2493f1..0634b53 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1686,6 +1686,10 @@ class XMLParser:
 				else:
 					# leave the absence of an end tag for ParseElement to worry about
 					return True
+			elif self.theChar==']' and self.ParseLiteral(']]>'):
+				if not self.dontCheckWellFormedness:
+					self.WellFormednessError("]]> in content")
+				self.HandleData(']]>')
 			else:
 				pcdata=self.ParseCharData()
 				if pcdata and not self.UnhandledData(pcdata):
-- 
2.43.0


From 11a1c753a3f590bb48a34124c4f6f9ed2832bec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 100/124] fix: characters that do not match Char are not
 accepted

---
 pyslet/pyslet/xml20081126/parser.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 0634b53..243521d 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -319,6 +319,14 @@ class XMLParser:
 		if self.checkAllErrors:
 			self.nonFatalErrors.append("%s: %s"%(self.entity.GetPositionStr(),msg))
 
+	def CheckChar(self,production):
+		"""Checks that the current character matches production [2] Char.
+		
+		If it doesn't then a well-formedness error is raised, unless
+		:py:attr:`dontCheckWellFormedness` is set."""
+		if not self.dontCheckWellFormedness and not IsChar(self.theChar):
+			self.WellFormednessError(production+": Illegal character %s"%repr(self.theChar))
+
 	def ParseLiteral(self,match):
 		"""Parses a literal string, passed in *match*.
 		
@@ -714,6 +722,7 @@ class XMLParser:
 				elif self.theChar=='<':
 					self.WellFormednessError("No < in Attribute Values")
 				else:
+					self.CheckChar(production)
 					value.append(self.theChar)
 					self.NextChar()
 			except XMLWellFormedError:
@@ -790,6 +799,7 @@ class XMLParser:
 					self.BuffText(']]>')
 					break
 			self.IsS()		# force Unicode compatible white space handling
+			self.CheckChar("[14] CharData")
 			data.append(self.theChar)
 			self.NextChar()
 			if len(data)>=XMLEntity.ChunkSize:
@@ -854,6 +864,7 @@ class XMLParser:
 						self.WellFormednessError("-- in Comment")
 					data.append('-'*nHyphens)									
 					nHyphens=0
+				self.CheckChar(production)
 				data.append(self.theChar)
 				self.NextChar()
 		else:
@@ -891,6 +902,7 @@ class XMLParser:
 						self.WellFormednessError(production+": Unexpected end of file")
 					break
 				else:
+					self.CheckChar(production)
 					data.append(self.theChar)
 					self.NextChar()
 		else:
@@ -938,6 +950,7 @@ class XMLParser:
 			if self.ParseLiteral(cdEnd):
 				self.BuffText(cdEnd)
 				break
+			self.CheckChar("[20] CData")
 			data.append(self.theChar)
 			self.NextChar()
 			if len(data)>=XMLEntity.ChunkSize:
-- 
2.43.0


From f8268dddbe97fb514f0a82f601c71881c2a338e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 101/124] fix: references to characters beyond U+10FFFF are
 well-formedness errors

---
 pyslet/pyslet/xml20081126/parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 243521d..40497b9 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -2330,12 +2330,15 @@ class XMLParser:
 		if self.ParseLiteral('x'):
 			qualifier='x'
 			digits=self.ParseRequiredHexDigits(production)
-			data=unichr(int(digits,16))
+			code=int(digits,16)
 		else:
 			qualifier=''
 			digits=self.ParseRequiredDecimalDigits(production)
-			data=unichr(int(digits))
+			code=int(digits)
 		self.ParseRequiredLiteral(';',production)
+		if code>0x10FFFF:
+			self.WellFormednessError("Legal Character: &#%s%s; does not match production for Char"%(qualifier,digits))
+		data=unichr(code)
 		if self.refMode==XMLParser.RefModeInDTD:
 			raise XMLForbiddenEntityReference("&#%s%s; forbidden by context"%(qualifier,digits))
 		elif self.refMode==XMLParser.RefModeAsAttributeValue:
-- 
2.43.0


From d887b6dccbd986b2d3216e3768c7a0e976c510d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 102/124] fix: documents may start with a processing
 instruction like xml-stylesheet

---
 pyslet/pyslet/xml20081126/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 40497b9..8ca2748 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -967,7 +967,12 @@ class XMLParser:
 	def ParseProlog(self):
 		"""[22] prolog: parses the document prolog, including the XML declaration and dtd."""
 		production="[22] prolog"
-		if self.ParseLiteral('<?xml'):
+		gotDecl=self.ParseLiteral('<?xml')
+		if gotDecl and (IsNameChar(self.theChar) or self.theChar==':'):
+			# a processing instruction with a target like xml-stylesheet
+			self.BuffText('<?xml')
+			gotDecl=False
+		if gotDecl:
 			self.ParseXMLDecl(True)
 		else:
 			self.declaration=None
-- 
2.43.0


From b5006286fe3ebf723684bbbe642fae5d639596ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 103/124] fix: omitted #FIXED attributes take their default
 value

---
 pyslet/pyslet/xml20081126/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 8ca2748..6bbbdb5 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1393,8 +1393,8 @@ class XMLParser:
 				value=attrs.get(a,None)
 				if value is None:
 					# check for default
-					if aDef.presence==XMLAttributeDefinition.Default:
-						attrs[a]=aDef.defaultValue
+					if aDef.presence==XMLAttributeDefinition.Default or aDef.presence==XMLAttributeDefinition.Fixed:
+						attrs[a]=value=aDef.defaultValue
 						if checkStandalone:
 							self.ValidityError("Standalone Document Declaration: specification for attribute %s required (externally defined default)"%a)
 					elif aDef.presence==XMLAttributeDefinition.Required:
@@ -1407,7 +1407,7 @@ class XMLParser:
 						newValue=NormalizeSpace(value)
 						if checkStandalone and newValue!=value:
 							self.ValidityError("Standalone Document Declaration: specification for attribute %s altered by normalization (externally defined tokenized type)"%a)
-						attrs[a]=newValue
+						attrs[a]=value=newValue
 				if aDef.presence==XMLAttributeDefinition.Fixed:
 					if value!=aDef.defaultValue:
 						self.ValidityError("Fixed Attribute Default: %s must match the #FIXED value %s"%(value,aDef.defaultValue))						
-- 
2.43.0


From d0d1388236d8eaf3677970050b125985ec7f8293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:13 +0000
Subject: [PATCH 104/124] fix: names may contain characters beyond the BMP

---
 pyslet/pyslet/xml20081126/structures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 80053af..cc1e2c9 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -702,6 +702,8 @@ def IsNameStartChar(c):
 				return c==u":"
 		else:
 			return c==u"_"
+	elif 0x10000<=ord(c)<=0xEFFFF:
+		return True
 	else:
 		return NameStartCharClass.Test(c)
 	
@@ -727,6 +729,8 @@ def IsNameChar(c):
 					return c==u":"
 			else:
 				return c==u"_"
+		elif 0x10000<=ord(c)<=0xEFFFF:
+			return True
 		else:
 			return NameCharClass.Test(c)
 	return False
-- 
2.43.0


From d1aac2ee18e5c19d4a12ec566fb56e0845baae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:30 +0000
Subject: [PATCH 105/124] fix: a content specification that breaks off is a
 well-formedness error

---
 pyslet/pyslet/xml20081126/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 6bbbdb5..99c2af5 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1807,7 +1807,7 @@ class XMLParser:
 				eType.contentType=ElementType.ElementContent
 				eType.contentModel=self.ParseChildren(True,groupEntity)
 		else:
-			self.WellFormednessError(production,": expected 'EMPTY', 'ANY' or '('")
+			self.WellFormednessError(production+": expected 'EMPTY', 'ANY' or '('")
 			
 	def ParseChildren(self,gotLiteral=False,groupEntity=None):
 		"""[47] children: parses an element content model comprising children.
-- 
2.43.0


From 08a70b101c9ad81b93a1a9615fee56ad36ce823a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:21 +0000
Subject: [PATCH 106/124] fix: the first declaration of an entity is binding

---
 pyslet/pyslet/xml20081126/structures.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index cc1e2c9..0d98011 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -807,13 +807,16 @@ class XMLDTD(object):
 	def DeclareEntity(self,entity):
 		"""Declares an entity in this document.
 		
+		If an entity is declared more than once the first declaration is
+		binding and the others are ignored.
+		
 		The same method is used for both general and parameter entities.  The
 		value of *entity* can be either an :py:class:`XMLGeneralEntity` or an
 		:py:class:`XMLParameterEntity` instance."""
 		if isinstance(entity,XMLGeneralEntity):
-			self.generalEntities[entity.name]=entity
+			self.generalEntities.setdefault(entity.name,entity)
 		elif isinstance(entity,XMLParameterEntity):
-			self.parameterEntities[entity.name]=entity
+			self.parameterEntities.setdefault(entity.name,entity)
 		else:
 			raise ValueError
 
-- 
2.43.0


From 3bb02afe5431ba8c33486dca6d86403a3c4269b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:21 +0000
Subject: [PATCH 107/124] fix: undeclared entities that need not be declared
 raised TypeError in attribute values

---
 pyslet/pyslet/xml20081126/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 99c2af5..dfc3bc8 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -2439,6 +2439,7 @@ class XMLParser:
 					self.WellFormednessError("Entity Declared: undeclared general entity %s in standalone document"%name)
 				else:
 					self.ValidityError("Entity Declared: undeclared general entity %s"%name)
+					return ''
 	
 	def LookupPredefinedEntity(self,name):
 		"""Utility function used to look up pre-defined entities, e.g., "lt"
-- 
2.43.0


From 59f102b38aa1b32a347af7a4417ef13832b34f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:21 +0000
Subject: [PATCH 108/124] fix: the parser no longer hangs on entities that
 refer to each other

---
 pyslet/pyslet/xml20081126/parser.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index dfc3bc8..62a0021 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -2426,12 +2426,13 @@ class XMLParser:
 					else:
 						if not self.dontCheckWellFormedness and self.refMode==XMLParser.RefModeInAttributeValue and e.IsExternal():
 							self.WellFormednessError("No External Entity References: &%s; not allowed in attribute value"%name)
-						if e.IsOpen() or (e is entity):
+						if e.IsOpen() or self.IsReferencedFrom(entity,e):
 							# if the last char of the entity is a ';' closing a
 							# recursive entity reference then # the entity will
 							# have been closed so we must check the context of the
 							# reference # too, not just whether it is currently open
 							self.WellFormednessError("No Recursion: entity &%s; is already open"%name)
+						e.referrer=entity
 						e.Open()
 						self.PushEntity(e)
 					return ''
@@ -2441,6 +2442,14 @@ class XMLParser:
 					self.ValidityError("Entity Declared: undeclared general entity %s"%name)
 					return ''
 	
+	def IsReferencedFrom(self,entity,e):
+		"""Tests if *entity* is *e* or was, directly or indirectly, referenced from it."""
+		while entity is not None:
+			if entity is e:
+				return True
+			entity=getattr(entity,'referrer',None)
+		return False
+		
 	def LookupPredefinedEntity(self,name):
 		"""Utility function used to look up pre-defined entities, e.g., "lt"
 		
@@ -2500,8 +2509,9 @@ class XMLParser:
 					declaration occurring in the external subset or in a parameter
 					entity (external or internal, the latter being included because
 					non-validating processors are not required to read them"""
-					if e.IsOpen() or (e is entity):
+					if e.IsOpen() or self.IsReferencedFrom(entity,e):
 						self.WellFormednessError("No Recursion: entity %%%s; is already open"%name)					
+					e.referrer=entity
 					if self.refMode==XMLParser.RefModeInEntityValue:
 						# Parameter entities are fed back into the parser somehow
 						e.Open()
-- 
2.43.0


From 769b98e05e8a5e207ad7c73390d44cc04ee1cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:21 +0000
Subject: [PATCH 109/124] fix: elements must start and end in the same entity

---
 pyslet/pyslet/xml20081126/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 62a0021..157f9cc 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1259,6 +1259,7 @@ class XMLParser:
 		saveElement=self.element
 		saveElementType=self.elementType
 		saveCursor=None
+		sEntity=self.entity
 		if self.sgmlOmittag and self.theChar!='<':
 			# Leading data means the start tag was omitted (perhaps at the start of the doc)
 			name=None
@@ -1336,6 +1337,8 @@ class XMLParser:
 						break
 			else:
 				while self.ParseContent():		# otherwise content detected end of element (so end tag was omitted)
+					if self.entity is not sEntity and not (self.dontCheckWellFormedness or self.sgmlOmittag):
+						self.WellFormednessError("Element <%s> must start and end in the same entity"%name)
 					endName=self.ParseETag()
 					if endName==name:
 						break
-- 
2.43.0


From 19c9a10cb172e7a42d000eaa73c90ba96848d90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:11 +0000
Subject: [PATCH 110/124] fix: an empty entity may be referred to more than
 once

---
 pyslet/pyslet/xml20081126/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 157f9cc..0c7ebc3 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -186,6 +186,7 @@ class XMLParser:
 			# Harsh but fair, if we had reason to believe that this entity used UTF-16 but it
 			# was completely empty (not even a BOM) then that is an error.
 			self.CheckEncoding(entity,None)
+			entity.Close()
 		if entity.buffText:
 			self.BuffText(entity.buffText)
 	
@@ -672,7 +673,7 @@ class XMLParser:
 			else:
 				self.WellFormednessError("Unexpected data in EntityValue")
 		self.refMode=saveMode
-		return string.join(value,'')
+		return string.join(value,u'')
 
 	def ParseAttValue(self):
 		"""[10] AttValue: parses an attribute value.
-- 
2.43.0


From c8dc5e13426f13a120a8344a167d62041aa84bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:21 +0000
Subject: [PATCH 111/124] fix: elements in an element declared EMPTY raised
 AttributeError

---
 pyslet/pyslet/xml20081126/structures.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 0d98011..21e2161 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -2511,11 +2511,15 @@ class ContentParticleCursor(object):
 		expected={}
 		endTag=None
 		if self.state==ContentParticleCursor.StartState:
-			for name in self.elementType.particleMap.keys():
-				if name:
-					expected[name]=True
-				else:
-					endTag="</%s>"%self.elementType.name
+			if self.elementType.particleMap is None:
+				# EMPTY, ANY and SGML CDATA elements have no model
+				endTag="</%s>"%self.elementType.name
+			else:
+				for name in self.elementType.particleMap.keys():
+					if name:
+						expected[name]=True
+					else:
+						endTag="</%s>"%self.elementType.name
 		elif self.state==ContentParticleCursor.ParticleState:
 			for p in self.pList:
 				for name in p.particleMap.keys():
-- 
2.43.0


From 70e0d78a8f81438d7f2bd4c7704aaaf13603ac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:21 +0000
Subject: [PATCH 112/124] fix: comments and processing instructions in
 undeclared elements raised AttributeError

---
 pyslet/pyslet/xml20081126/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 0c7ebc3..154d03b 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1661,7 +1661,7 @@ class XMLParser:
 					if self.theChar=='-':
 						self.ParseRequiredLiteral('--')
 						self.ParseComment(True)
-						if self.checkValidity and self.elementType.contentType==ElementType.Empty:
+						if self.checkValidity and self.elementType and self.elementType.contentType==ElementType.Empty:
 							self.ValidityError("Element Valid: comment not allowed in element declared EMPTY: %s"%self.elementType.name)
 					elif self.theChar=='[':
 						self.ParseRequiredLiteral('[CDATA[')
@@ -1678,7 +1678,7 @@ class XMLParser:
 					# PI
 					self.NextChar()
 					self.ParsePI(True)
-					if self.checkValidity and self.elementType.contentType==ElementType.Empty:
+					if self.checkValidity and self.elementType and self.elementType.contentType==ElementType.Empty:
 						self.ValidityError("Element Valid: processing instruction not allowed in element declared EMPTY: %s"%self.elementType.name)
 				elif self.theChar!='/':
 					# element
-- 
2.43.0


From 1f23273d63b0848bd5f4d0480681e37a1d3b1757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:21 +0000
Subject: [PATCH 113/124] fix: the content of elements written as empty-element
 tags is checked

---
 pyslet/pyslet/xml20081126/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 154d03b..9e086cf 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1368,11 +1368,11 @@ class XMLParser:
 							self.WellFormednessError("Element Type Mismatch: found </%s>, expected <%s/>"%(endName,name))
 					else:
 						break
-				self.CheckExpectedParticle('')
 			if name is None and self.dataCount==saveDataCount:
 				# This element was triggered by data which elementClass was supposed to consume
 				# It didn't consume any data so we raise an error here to prevent a loop
 				raise XMLFatalError(production+": element implied by PCDATA had empty content %s"%self.element) 
+		self.CheckExpectedParticle('')
 		self.element.ContentChanged()
 		self.element=saveElement
 		self.elementType=saveElementType
-- 
2.43.0


From d10ac7cbf5ffc89fefa47b90f99ffb00132515f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:21 +0000
Subject: [PATCH 114/124] fix: CDATA sections without data are not allowed in
 element content

---
 pyslet/pyslet/xml20081126/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 9e086cf..6438d78 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1671,6 +1671,9 @@ class XMLParser:
 							self.BuffText('<![CDATA[')
 							self.UnhandledData('')
 						else:
+							if self.theChar==']' and self.checkValidity and self.elementType and self.elementType.contentType in (ElementType.Empty,ElementType.ElementContent):
+								# the data of other sections is reported by HandleData
+								self.ValidityError("Element Valid: CDATA section not allowed in element %s"%self.elementType.name)
 							self.ParseCDSect(True)
 					else:
 						self.WellFormednessError("Expected Comment or CDSect")
-- 
2.43.0


From 7bc1b99dc962207c3c4707f0dc311332e589752b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:21 +0000
Subject: [PATCH 115/124] fix: the notations of NOTATION attributes must be
 declared

---
 pyslet/pyslet/xml20081126/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 6438d78..8cd45ec 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -998,6 +998,13 @@ class XMLParser:
 							aDef=aDefs[aName]
 							if aDef.type==XMLAttributeDefinition.Notation:
 								self.ValidityError("No Notation on Empty Element: attribute %s on element %s cannot have NOTATION type"%(aName,eName))
+			for eName in self.dtd.attributeLists.keys():
+				aDefs=self.dtd.attributeLists[eName]
+				for aName in aDefs.keys():
+					if aDefs[aName].type==XMLAttributeDefinition.Notation:
+						for nName in aDefs[aName].values.keys():
+							if not nName in self.dtd.notations:
+								self.ValidityError("Notation Attributes: notation %s used in declaration of attribute %s has not been declared"%(nName,aName))
 			for eName in self.dtd.generalEntities.keys():
 				eDef=self.dtd.generalEntities[eName]
 				if eDef.notation and not eDef.notation in self.dtd.notations:
-- 
2.43.0


From 8333d688fcb72c2e84f2190353f8bcfa306e65bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:21 +0000
Subject: [PATCH 116/124] fix: GetAttributeDefinition raised NameError

---
 pyslet/pyslet/xml20081126/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 21e2161..5ea765b 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -896,7 +896,7 @@ class XMLDTD(object):
 		
 		The method returns an instance of :py:class:`XMLAttributeDefinition` or
 		None if no attribute matching this description has been declared."""		
-		aList=self.attributeLists.get(name,None)
+		aList=self.attributeLists.get(elementName,None)
 		if aList:
 			return aList.get(attributeName,None)
 		else:
-- 
2.43.0


From abeee09d54f0eb334068266661c0ba73607d3e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:34 +0000
Subject: [PATCH 117/124] fix: parsing a document with namespaces without a
 Document instance raised NameError

---
 pyslet/pyslet/xmlnames20091208.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index 437d1b9..bd0e575 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -554,15 +554,14 @@ class XMLNSParser(XMLParser):
 
 		If no document class can be found, :py:class:`XMLNSDocument` is
 		returned."""
-		rootName=dtd.name
 		if expandedName[0] is None:
-			docClass=XMLParser.NSDocumentClassTable.get(expandedName,None)
+			docClass=XMLNSParser.NSDocumentClassTable.get(expandedName,None)
 		else:
-			docClass=XMLParser.NSDocumentClassTable.get(expandedName,None)
+			docClass=XMLNSParser.NSDocumentClassTable.get(expandedName,None)
 			if docClass is None:
-				docClass=XMLParser.DocumentClassTable.get((expandedName[0],None),None)
+				docClass=XMLNSParser.NSDocumentClassTable.get((expandedName[0],None),None)
 			if docClass is None:
-				docClass=XMLParser.DocumentClassTable.get((None,expandedName[1]),None)
+				docClass=XMLNSParser.NSDocumentClassTable.get((None,expandedName[1]),None)
 		if docClass is None:
 			docClass=XMLNSDocument
 		return docClass
-- 
2.43.0


From 909760a612562bd6019de09d1e6b8f2df125428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:34 +0000
Subject: [PATCH 118/124] fix: attributes with names like xmlnsx were lost

---
 pyslet/pyslet/xmlnames20091208.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index bd0e575..eef7c35 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -463,7 +463,7 @@ class XMLNSParser(XMLParser):
 		:py:class:`XMLParser`. """
 		ns={}
 		for aname in attrs.keys():
-			if aname.startswith('xmlns'):
+			if aname=='xmlns' or aname.startswith('xmlns:'):
 				if len(aname)==5:
 					# default ns declaration
 					ns['']=attrs[aname]
-- 
2.43.0


From f1064a02f9668306365cdf0b66f5602c02ccf8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:34 +0000
Subject: [PATCH 119/124] fix: xmlns="" undeclares the default namespace

---
 pyslet/pyslet/xmlnames20091208.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index eef7c35..bc253fc 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -91,14 +91,15 @@ class XMLNSElementContainerMixin:
 		ei=self
 		while ei is not None:
 			ns=ei.prefixToNS.get(prefix,None)
-			if ns:
+			if ns is not None:
 				break
 			if prefix=='':
 				ns=getattr(ei,'DefaultNS',None)
 				if ns:
 					break
 			ei=ei.parent
-		return ns
+		# the empty string is used to undeclare the default namespace
+		return ns or None
 
 	def NewPrefix(self,stem='ns'):
 		"""Return an unused prefix of the form stem#, stem defaults to ns.
@@ -424,7 +425,8 @@ class XMLNSParser(XMLParser):
 				nsURI=nsDefs.get('',None)
 				if nsURI is None and context:
 					nsURI=context.GetNS('')
-				return (nsURI,qname)
+				# xmlns="" means no namespace
+				return (nsURI or None,qname)
 			else:
 				return (NO_NAMESPACE,qname)
 		elif len(xname)==2:
-- 
2.43.0


From 03bdb2fdd1fc0bab1a8791969c6a9bf38310f6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:34 +0000
Subject: [PATCH 120/124] fix: elements without a namespace were written in the
 default namespace

---
 pyslet/pyslet/xmlnames20091208.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index bc253fc..966433e 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -326,6 +326,10 @@ class XMLNSElement(XMLNSElementContainerMixin,Element):
 				prefix=self.MakePrefix(self.ns,'')
 		else:
 			prefix=''
+			if self.GetNS(''):
+				# We need to undeclare the default namespace
+				self.nsToPrefix.pop(self.prefixToNS.get('',None),None)
+				self.prefixToNS['']=''
 		if prefix:
 			prefix=prefix+':'
 		self.WriteXMLAttributes(attributes,escapeFunction,root=root)
-- 
2.43.0


From f4a1c1643b4c23e8191521caee8bd1b5b4981d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:34 +0000
Subject: [PATCH 121/124] fix: attributes in the default namespace were written
 without a prefix

---
 pyslet/pyslet/xmlnames20091208.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index 966433e..8bde908 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -300,6 +300,14 @@ class XMLNSElement(XMLNSElementContainerMixin,Element):
 			else:
 				ns,aname=a
 				prefix=self.GetPrefix(ns)
+				if prefix=='' and ns is not None and ns!=NO_NAMESPACE:
+					# the default namespace does not apply to attributes
+					prefix=None
+					prefixMap=self.GetPrefixMap()
+					for p in prefixMap.keys():
+						if p and prefixMap[p]==ns:
+							prefix=p
+							break
 			if prefix is None:
 				prefix=self.MakePrefix(ns)
 			if prefix:
-- 
2.43.0


From 093a04a7b4c791627ed4bb5733103cf12bbd254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:34 +0000
Subject: [PATCH 122/124] fix: two attributes with the same expanded name are
 an error

---
 pyslet/pyslet/xmlnames20091208.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index 8bde908..bade271 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -487,6 +487,8 @@ class XMLNSParser(XMLParser):
 				del attrs[aname]
 		for aname in attrs.keys():
 			expandedName=self.ExpandQName(aname,ns,False)
+			if expandedName in attrs and not self.dontCheckWellFormedness:
+				raise XMLNSError("Attributes Unique: %s"%aname)
 			attrs[expandedName]=attrs[aname]
 			del attrs[aname]
 		# Finally, we hide the ns object in the list of attributes so we can retrieve it later
-- 
2.43.0


From 1a6635c4c26e2ea8f35cc11594f60c76d7ef5f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:14 +0000
Subject: [PATCH 123/124] fix: qualified names with an empty prefix or local
 part are illegal

---
 pyslet/pyslet/xmlnames20091208.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index bade271..eeaac3a 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -443,6 +443,8 @@ class XMLNSParser(XMLParser):
 				return (NO_NAMESPACE,qname)
 		elif len(xname)==2:
 			nsprefix,local=xname
+			if not (nsprefix and local) and not self.dontCheckWellFormedness:
+				raise XMLNSError("Illegal QName: %s"%qname)
 			if nsprefix=='xml':
 				return (XML_NAMESPACE,local)
 			elif nsprefix=='xmlns':
-- 
2.43.0


From 52a05bf709c674b507cce8bc14c2a7422eea654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:14 +0000
Subject: [PATCH 124/124] fix: NSEqualNames without aliases raised TypeError

---
 pyslet/pyslet/xmlnames20091208.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index eeaac3a..91b2814 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -642,7 +642,7 @@ def NSEqualNames(baseName,name,nsAliases=None):
 	if baseName==name:
 		return True
 	else:
-		for alias in nsAliases:
+		for alias in nsAliases or []:
 			if (alias,baseName[1])==name:
 				return True
 	return False	
-- 
2.43.0

