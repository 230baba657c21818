import subprocess
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
M={
"compare sample rates":"C16","yield pending":"C17","raise on miniseed3 record truncated":"C04","readMSeed3Records raises on a truncated":"C04","raise Miniseed3Exception if identifier":"C29",
"deleting extra headers":"C32","pack extra headers of any json":"C32","decompressedRecord does not share":"C30","getSize of a record":"C02",
"sample period of a header without":"C15","start time of a record that starts in a leap":"C14","hasExtraHeaders for empty":"C32","reject int64":"C12",
"steim compression rejects values below":"C12","steim compression of 8":"C12","steim compression rejects lists":"C12","building codec error":"C29",
"decodeSteim1 checks first":"C08","unused words in first":"C08","array typecode":"C31","source id with location None":"C23","source id codes allow only":"C24",
"refuse channel codes":"C25","response of exactly":"C26","sample rate factor":"C19","pack data quality":"C19","refuse miniseed2 codes":"C19",
"blockette 100 sample rate":"C20","packed blockettes form":"C20","miniseed2 record that does not fit":"C21","decompressing a miniseed2":"C33",
"blockettes are in byte order":"C22","raise on truncated miniseed2":"C04","first blockette of":"C22","malformed miniseed2":"C29","byte order guess":"C22",
"read miniseed2 record that starts":"C14","zero sample rate":"C15","fdsnsourceid tool prints":"C28","repacked steim payloads":"C33","header time and blockette 1001":"C33","mseed2to3 command":"C28","flag bits":"C18",
"end time of a miniseed2":"C14","leap second in the start time":"C19","refuse list values the declared":"C12","refuse multi-dimensional arrays":"C12",
"big endian encoded segment":"C07","converting big endian":"C18","conversion to miniseed3 keeps":"C18","setting extra headers keeps":"C27","setting extra headers with":"C27","extra headers replaced by":"C27",
}
out=["# genuine defects found by the checks or while writing them","# fixed: repaired in /repo; a fixed entry suppresses nothing"]
for l in log:
    h,_,s=l.partition(" ")
    if not s.startswith("fix: "): continue
    s=s[5:]
    k=[p for p in M if s.startswith(p)]
    assert len(k)==1,(s,k)
    out.append(f"fixed: property={M[k[0]]} {h} {s}")
old=[x.rstrip("\n") for x in open("/verif/known_findings.txt")] if __import__("os").path.exists("/verif/known_findings.txt") else []
out+=["# known: recorded, not repaired"]+[x for x in old if x.startswith("known:")]
open("/verif/known_findings.txt","w").write("\n".join(out)+"\n")
