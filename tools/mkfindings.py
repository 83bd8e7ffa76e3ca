import subprocess
P={"19157e7":"C06 Set wrote CRLF behind the caller's value into its spare capacity",
"554e968":"C06 C03 meta get failed on flags >= 2^31 and CAS tokens >= 2^63",
"73d1808":"C03 items of text and binary GetMulti carried no CAS token",
"c338aba":"C02 C03 binary increment was made conditional by the token of an earlier request",
"25a738c":"C01 C07 bodies of binary error replies were left on the link and shifted the next call; a failed binary flush reported success",
"55d7953":"C05 C01 meta GetMulti stopped at the first missing key and left the other replies on the link",
"cb7ed86":"C07 error answers of the backend were reported as success, exists or not found",
"022fe06":"C06 C11 the lifetime a meta get reports could not be stored again (never expires came back as expired; more than 30 days as a date in the past)",
"4228f02":"C06 flags that are not four bytes long panicked in meta and binary writes",
"0b54bc5":"C06 text Get truncated keys at non-ASCII bytes",
"5fe6ffb":"C20 keys with blanks, line breaks or of illegal length were sent and executed other commands",
"4d768b8":"C01 C17 a connection stayed in use after a failed exchange and delivered the late reply to the next call",
"fe0a99f":"C17 Reconnect after Close revived the connection, a second Close succeeded, Close raced with calls",
"30de09c":"C18 only one heartbeat was sent, and a failed reconnect ended them",
"bb56259":"C08 servers with a common ring point were ordered by the argument list",
"b933da4":"C09 a key hitting a ring point exactly moved between two old servers when a third was added",
"42a077e":"C10 closing a pool stopped at the first server whose Close failed",
"f2eeaad":"C11 a conditional Set sent the primary's CAS token to the secondary",
"fee4962":"C14 negative data lengths and empty tokens of text requests crashed the server; a bad data block shifted the stream",
"816ed34":"C14 C13 binary requests with short extras or inconsistent lengths crashed the server or shifted the stream",
"8354fa6":"C13 get with several keys, flags >= 2^31 and deltas >= 2^31 were refused",
"8666746":"C13 C15 C16 meta get flags in separate tokens and the meta set mode were dropped; the meta get reply was malformed",
"52e987e":"C13 the CAS token of a binary request and the delay of a flush never reached the handler",
"cf5301e":"C15 C16 error outcomes got no reply at all, misses of text get looked like hits of an empty item, an empty response list panicked",
"e963e50":"C15 binary replies lost opcode, opaque, CAS token and the flags of a hit",
"9076c05":"C15 the reply to gets had no CAS token, that to version no VERSION, that to a meta set no k/O tokens",
"5f4c699":"C14 running out of file descriptors ended the server",
"625576b":"C16 the router dropped flags, CAS tokens, lifetimes and all keys of a text get",
"50ca9c9":"C22 items read over the meta and binary protocols did not name their server",
"2c21f0a":"C02 a binary Add whose item carried the token of the existing item replaced that item, and refused to add a missing key under any token",
}
with open("/verif/known-findings.txt","w") as f:
    f.write("# Genuine defects found by the checks. 'fixed:' entries suppress nothing.\n")
    for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines():
        h=l.split()[0]
        if h in P:
            ps=[w for w in P[h].split() if w[0]=="C" and w[1:].isdigit() and len(w)==3]
            text=P[h]
            for w in ps: text=text.replace(w+" ","",1)
            for w in ps: f.write("fixed: property=%s %s %s\n"%(w,h,text))
