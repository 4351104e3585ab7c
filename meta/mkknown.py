import json,subprocess
m={"845e94f":"M01","b8ac426":"M01","5c8b1a3":"M01","1babb86":"M01","a9119a6":"E02","5e8bfd7":"E02","1b5b0db":"E02","ffb581f":"E02","af992d3":"E02","e41931b":"E02","ba66a1d":"S03","1d4473c":"S03","a90e32e":"E02","bc3b6b2":"S01","6d8b510":"P01","765663d":"P01","d4617c4":"R01","1f948b1":"M01","9a18714":"C02","6bb0958":"H01","d4cefa1":"B02","f22150e":"B01","877880b":"T01","2266376":"I01","702ce73":"I01","64c6b07":"I01","a5f6c70":"A01","da78672":"T01","b4bc3c6":"A01","60b8723":"A01","4225a1e":"S03","a891cc3":"H01","63c616c":"C02","a8463b3":"R01","a852eec":"S03","eee5bbf":"S03","4a7952a":"S03","204007f":"B01","fee18b6":"B01","301bfe3":"S03","5fde7b3":"O01","d0a91f3":"O01","a065cc6":"K01","ef56dcd":"K01","aea067d":"P01","30e5ca6":"N01","de96349":"L01","1b395ad":"L01","392f200":"L01","e711027":"W01","83b4bed":"W01","e4692f1":"W01"}
out=subprocess.check_output("git -C /repo log --reverse --format='%h %s' ad24176..HEAD",shell=True,text=True)
fixed=[]
for l in out.splitlines():
    h,s=l.split(" ",1)
    assert s.startswith("fix: ")
    fixed.append("fixed: property=%s %s %s"%(m[h[:7]],h,s[5:]))
FINDINGS=[
 {"property":"R01","key":"caught|jumanpp::core::spec::parser::SpecAction<jumanpp::core::spec::parser::floatconst>::apply|std::stof",
  "site":"src/core/spec/spec_parser_impl.h SpecAction<floatconst>::apply",
  "what":"a weight like 1e999 in a model specification makes std::stof throw std::out_of_range, which nothing catches: jumanpp_tool is terminated instead of reporting a parse error"},
]
json.dump({"findings":FINDINGS,"fixed":fixed},open("/verif/known-findings.json","w"),indent=1)
