"""Source of properties.jsonl and MANIFEST.json: python3 meta/props.py rewrites both."""
import json, os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]; CLAIM={}; NA={}
def p(id,title,statement,over,text,why,files,mech,**k):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier={'over':over.split(),'text':text},why_tests_cant=why,anchors=dict(files=files.split(),mechanism=[{'name':n,'where':w} for n,w in mech],**k)))
def claim(id,note,level='proof',technique='contract-based deductive verification of the real code (own VC generator over the clang AST; z3/cvc5)',theorems=None):
    CLAIM[id]=dict(property=id,quick_cmd='./check.sh %s quick'%id,thorough_cmd='./check.sh %s thorough'%id,technique=technique,level=level,level_note=note,**({'theorems':theorems} if theorems else {}))
def na(id,reason): NA[id]=reason

p('C01','Base64 encoding and decoding are inverse and follow RFC 4648',
  'Encoding any byte sequence gives its padded RFC 4648 Base64 text, and decoding that text gives the original bytes back. Decoding accepts exactly the text made of alphabet characters with optional correct padding (one or two "=" only at the very end of a text whose length is a multiple of four; an unpadded length of 4n+1 is invalid) and reports everything else as an error. No input makes either direction read or write outside its buffers.',
  'inputs','every byte sequence and every text','The encoding test samples three strings; the guarantee is over every byte sequence and every malformed text.',
  'core/encoding/base64.cpp core/encoding/encoding.hpp',[('toBase64','core/encoding/base64.cpp'),('fromBase64','core/encoding/base64.cpp')])
claim('C01','All obligations of toBase64 and fromBase64 and the round-trip lemma over their contracts are discharged for inputs of every length; a bounded conformance run on the compiled code accompanies the proof.',theorems=['base64_roundtrip','ensures the RFC 4648 encoding','ensures the RFC 4648 decoding'])
p('C02','Hex and percent-encoding round-trip and reject malformed input',
  'Converting any bytes to hexadecimal gives two upper-case digits per byte, and converting back (either letter case) gives the same bytes; odd lengths and characters that are not hex digits are reported as errors. Percent-encoding replaces every URI delimiter by its escape and keeps all other bytes, and decoding it returns the original text. Decoding replaces every well-formed escape by its byte and reports a truncated or non-hex escape as an error.',
  'inputs','every byte sequence and every text','The tests encode a handful of strings and never decode malformed escapes.',
  'core/encoding/hex.cpp core/encoding/url.cpp',[('toHex/fromHex','core/encoding/hex.cpp'),('encodeURIComponent/decodeURIComponent','core/encoding/url.cpp')])
claim('C02','All obligations of the six functions and the round-trip lemmas are discharged for every input.',theorems=['hex_roundtrip','url_roundtrip','url_no_raw_delimiter'])
p('C05','String utilities compute exactly what their names say on every string',
  'Case conversion, trimming, prefix/suffix/substring tests, splitting, joining and (first or every occurrence) replacing give the textbook result for every input, including empty strings and separators. Splitting returns the pieces between the separators (an empty piece after the last separator is not returned), joining puts exactly one separator between neighbours, and replacing every occurrence goes left to right without rescanning the inserted text. Every call terminates and stays inside its buffers.',
  'inputs','every combination of input strings, including empty, overlapping and repeated ones','The strings test checks one trim call; header, cookie and URL tests reach a few more values.',
  'core/polyfill/strings.cpp core/polyfill/polyfill.hpp',[('Strings','core/polyfill/strings.cpp')])
claim('C05','Every function of strings.cpp is under contract and every obligation is discharged, for strings of every length.')
exec(open(os.path.join(ROOT,'meta','more.py')).read()) if os.path.exists(os.path.join(ROOT,'meta','more.py')) else None
def main():
    with open(os.path.join(ROOT,'properties.jsonl'),'w') as f:
        for x in sorted(P,key=lambda x:x['id']): f.write(json.dumps(x,ensure_ascii=False)+'\n')
    ids={x['id'] for x in P}; assert set(CLAIM)|set(NA)==ids and not set(CLAIM)&set(NA),(ids-set(CLAIM)-set(NA),set(CLAIM)&set(NA),set(NA)-ids)
    m={'version':1,'setup_cmd':'./setup.sh','checks':[CLAIM[k] for k in sorted(CLAIM)],'not_applicable':[{'property':k,'reason':NA[k]} for k in sorted(NA)],
       'notes':'tool/: the deductive verifier (clang front end, VC generator, solver portfolio). spec/: contracts, invariants and lemmas. harness/: executable oracles run against the compiled code (bounded, labelled as such). meta/props.py rewrites properties.jsonl and this file.'}
    json.dump(m,open(os.path.join(ROOT,'MANIFEST.json'),'w'),indent=1); open(os.path.join(ROOT,'MANIFEST.json'),'a').write('\n')
main()
