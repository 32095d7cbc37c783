// Text input.  A stream object is a token list per line; its iostate lives at its real offset so that
// inlined state queries work.  Files: the lines the harness wrote; a name containing "missing" cannot be opened.
{
	typedef Machine::Stm Stm; typedef Machine::Tok Tok;
	auto sstr=[](Mr m,uint64_t a) { uint64_t p=m.load(a,8,false).c,n=m.concretize(m.load(a+8,8,false),64); string s; for(uint64_t i=0;i<n;i++) s+=(char)m.concretize(m.load(p+i,1,false),8); return s; };
	auto setstr=[](Mr m,uint64_t a,const string& s) { uint64_t p=m.load(a,8,false).c; uint64_t q=a+16; if(s.size()>15) q=m.newObj(s.size()+1,K_HEAP,16,false,"new"); if(p!=a+16) m.freeObj(p,"new"); if(q!=a+16) m.store(a+16,8,cv(s.size())); m.store(a,8,cv(q)); m.store(a+8,8,cv(s.size())); for(size_t i=0;i<=s.size();i++) m.store(q+i,1,cv(i<s.size()?(uint8_t)s[i]:0)); };
	auto init=[](Mr m,uint64_t a) { if(!m.streamVT) { m.streamVT=m.newObj(256,K_STACK,16,true); } m.store(a,8,cv(m.streamVT+64)); m.store(a+32,4,cv(0)); m.store(a+28,4,cv(0)); m.store(a+24,4,cv(0x1002)); m.stm[a]=Stm(); };
	auto tokenize=[](const string& s) { vector<vector<Tok>> L; std::istringstream is(s); string line; L.clear(); while(std::getline(is,line)) { L.push_back({}); std::istringstream l(line); string w; while(l>>w) L.back().push_back(Tok{0,w,cv(0)}); } return L; };
	auto setst=[](Mr m,uint64_t a,uint32_t bits) { uint32_t s=(uint32_t)m.load(a+32,4,false).c; m.store(a+32,4,cv(s|bits)); };
	auto bad=[](Mr m,uint64_t a)->bool { return m.load(a+32,4,false).c!=0; };
	auto render=[](Mr m,const Tok& t)->string { if(t.kind==0) return t.s; if(t.kind==1) return std::to_string((int32_t)m.concretize(t.v,32)); if(!t.v.e) { std::ostringstream o; o.precision(17); o<<Machine::asD(t.v.c); return o.str(); } throw EngineError("text of a symbolic real"); };
	auto nexttok=[](Mr m,uint64_t a)->Tok* { Stm& s=m.stm[a]; while(s.ln<s.L.size()&&s.pos>=s.L[s.ln].size()) { s.ln++; s.pos=0; } if(s.ln>=s.L.size()) return nullptr; return &s.L[s.ln][s.pos]; };
	const string SS="NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE";
	auto openf=[=](Mr m,uint64_t a,const string& fn) { Stm& s=m.stm[a]; s=Stm(); if(fn.find("missing")!=string::npos) { setst(m,a,4); return; } s.L=m.lines; s.open=true; };
	const string IFS="_ZNSt14basic_ifstreamIcSt11char_traitsIcEE";
	for(string c:{"C1","C2"}) {
		reg(strdup((IFS+c+"ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { init(m,a[0].c); openf(m,a[0].c,sstr(m,a[1].c)); return cv(0); });
		reg(strdup((IFS+c+"EPKcSt13_Ios_Openmode").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { init(m,a[0].c); openf(m,a[0].c,m.cstr(a[1].c)); return cv(0); });
		reg(strdup((IFS+c+"Ev").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { init(m,a[0].c); return cv(0); }); }
	for(string c:{"D0","D1","D2"}) { reg(strdup((IFS+c+"Ev").c_str()),nop); reg(strdup(("_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEE"+c+"Ev").c_str()),nop); reg(strdup(("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE"+c+"Ev").c_str()),nop); }
	reg(strdup((IFS+"4openERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { openf(m,a[0].c,sstr(m,a[1].c)); return cv(0); });
	reg(strdup((IFS+"4openEPKcSt13_Ios_Openmode").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { openf(m,a[0].c,m.cstr(a[1].c)); return cv(0); });
	reg(strdup((IFS+"5closeEv").c_str()),[](Mr m,Tr,Dr,Ar a)->Val { Stm& s=m.stm[a[0].c]; s.L.clear(); s.ln=s.pos=0; s.open=false; return cv(0); });
	for(auto n:{"7is_openEv"}) { reg(strdup((IFS+n).c_str()),[](Mr m,Tr,Dr,Ar a)->Val { return cv(m.stm[a[0].c].open); }); reg("_ZNKSt14basic_ifstreamIcSt11char_traitsIcEE7is_openEv",[](Mr m,Tr,Dr,Ar a)->Val { return cv(m.stm[a[0].c].open); }); }
	for(string cl:{"_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEE","_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE"}) for(string c:{"C1","C2"})
		reg(strdup((cl+c+"ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { init(m,a[0].c); string s=sstr(m,a[1].c); m.stm[a[0].c].L=tokenize(s); return cv(0); });
	const string IOS="_ZNKSt9basic_iosIcSt11char_traitsIcEE"; auto st=[](Mr m,uint64_t a) { return (uint32_t)m.load(a+32,4,false).c; };
	reg(strdup((IOS+"ntEv").c_str()),[st](Mr m,Tr,Dr,Ar a)->Val { return cv((st(m,a[0].c)&5)!=0); }); reg(strdup((IOS+"cvbEv").c_str()),[st](Mr m,Tr,Dr,Ar a)->Val { return cv((st(m,a[0].c)&5)==0); });
	reg(strdup((IOS+"4failEv").c_str()),[st](Mr m,Tr,Dr,Ar a)->Val { return cv((st(m,a[0].c)&5)!=0); }); reg(strdup((IOS+"4goodEv").c_str()),[st](Mr m,Tr,Dr,Ar a)->Val { return cv(st(m,a[0].c)==0); });
	reg(strdup((IOS+"3eofEv").c_str()),[st](Mr m,Tr,Dr,Ar a)->Val { return cv((st(m,a[0].c)&2)!=0); }); reg(strdup((IOS+"3badEv").c_str()),[st](Mr m,Tr,Dr,Ar a)->Val { return cv((st(m,a[0].c)&1)!=0); });
	reg("_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate",[](Mr m,Tr,Dr,Ar a)->Val { if(!m.stm.count(a[0].c)) return cv(0); m.store(a[0].c+32,4,cv((uint32_t)a[1].c)); return cv(0); });
	reg("_ZNSt9basic_iosIcSt11char_traitsIcEE8setstateESt12_Ios_Iostate",[setst](Mr m,Tr,Dr,Ar a)->Val { if(m.stm.count(a[0].c)) setst(m,a[0].c,(uint32_t)a[1].c); return cv(0); });
	auto gl=[=](Mr m,Tr,Dr,Ar a)->Val { uint64_t s=a[0].c; if(!m.stm.count(s)) throw EngineError("unknown stream"); if(a.size()>2&&(a[2].c&255)!='\n') throw EngineError("getline with a delimiter"); if(bad(m,s)) { setst(m,s,4); return a[0]; } Stm& S=m.stm[s]; if(S.ln>=S.L.size()) { setstr(m,a[1].c,""); setst(m,s,6); return a[0]; }
		string r; for(size_t i=S.pos;i<S.L[S.ln].size();i++) r+=(i>S.pos?" ":"")+render(m,S.L[S.ln][i]); S.ln++; S.pos=0; setstr(m,a[1].c,r); return a[0]; };
	reg("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE",gl); reg("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_",gl);
	for(auto n:{"_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_EOS6_RNSt7__cxx1112basic_stringIS4_S5_T1_EE"}) reg(n,gl);
	reg("_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE",[=](Mr m,Tr,Dr,Ar a)->Val { uint64_t s=a[0].c; if(!m.stm.count(s)) throw EngineError("unknown stream"); if(bad(m,s)) { setst(m,s,4); return a[0]; } Tok* t=nexttok(m,s); if(!t) { setst(m,s,6); return a[0]; } string r=render(m,*t); m.stm[s].pos++; setstr(m,a[1].c,r); return a[0]; });
	auto rdint=[=](unsigned w)->BFn { return [=](Mr m,Tr,Dr,Ar a)->Val { uint64_t s=a[0].c; if(!m.stm.count(s)) throw EngineError("unknown stream"); if(bad(m,s)) { setst(m,s,4); return a[0]; } Tok* t=nexttok(m,s); if(!t) { m.store(a[1].c,w,cv(0)); setst(m,s,6); return a[0]; }
		if(t->kind==1) { Val v=t->v; m.stm[s].pos++; if(w==8) v=v.e?Machine::fromE(eCast(E_SEXT,v.e,64)):cv((uint64_t)(int64_t)(int32_t)v.c); m.store(a[1].c,w,v); return a[0]; }
		if(t->kind==2) throw EngineError("a real token read as an integer"); if(t->s.find('\1')!=string::npos) throw EngineError("text of a symbolic value"); char* e; long v=strtol(t->s.c_str(),&e,10); if(e==t->s.c_str()) { m.store(a[1].c,w,cv(0)); setst(m,s,4); return a[0]; } string rest=e; m.store(a[1].c,w,cv((uint64_t)v&maskw(w*8))); if(rest.empty()) m.stm[s].pos++; else t->s=rest; return a[0]; }; };
	reg("_ZNSirsERi",rdint(4)); reg("_ZNSirsERl",rdint(8)); reg("_ZNSi10_M_extractIlEERSiRT_",rdint(8)); reg("_ZNSirsERj",rdint(4)); reg("_ZNSi10_M_extractIjEERSiRT_",rdint(4)); reg("_ZNSi10_M_extractImEERSiRT_",rdint(8)); reg("_ZNSirsERm",rdint(8));
	BFn rdd=[=](Mr m,Tr,Dr,Ar a)->Val { uint64_t s=a[0].c; if(!m.stm.count(s)) throw EngineError("unknown stream"); if(bad(m,s)) { setst(m,s,4); return a[0]; } Tok* t=nexttok(m,s); if(!t) { m.store(a[1].c,8,cv(0)); setst(m,s,6); return a[0]; }
		if(t->kind==2) { m.store(a[1].c,8,t->v); m.stm[s].pos++; return a[0]; } if(t->kind==1) { m.store(a[1].c,8,cv(Machine::asU((double)(int32_t)m.concretize(t->v,32)))); m.stm[s].pos++; return a[0]; }
		if(t->s.find('\1')!=string::npos) throw EngineError("text of a symbolic value"); char* e; double v=strtod(t->s.c_str(),&e); if(e==t->s.c_str()) { m.store(a[1].c,8,cv(0)); setst(m,s,4); return a[0]; } string rest=e; m.store(a[1].c,8,cv(Machine::asU(v))); if(rest.empty()) m.stm[s].pos++; else t->s=rest; return a[0]; };
	reg("_ZNSirsERd",rdd); reg("_ZNSi10_M_extractIdEERSiRT_",rdd);
	for(auto n:{"_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_","_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_","_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc","_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c","_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE","_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St5_Setw","_ZNSolsEPFRSoS_E","_ZNSolsEd","_ZNSolsEi","_ZNSolsEb","_ZNSolsEm","_ZNSolsEl","_ZNSolsEf","_ZNSolsEj","_ZNSolsEPFRSt8ios_baseS0_E"}) reg(n,id0);
	// text output into strings: the characters are collected per stream object (cout and files: discarded)
	{
		const string OS="_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE", SST="_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE";
		auto raw=[](Mr m,uint64_t p,uint64_t n) { string t; for(uint64_t i=0;i<n;i++) { Val v=m.load(p+i,1,false); t+=v.e?'\1':(char)v.c; } return t; };
		auto strLen=[](Mr m,uint64_t p) { uint64_t n=0; for(;;n++) { Val v=m.load(p+n,1,false); if(!v.e&&!(v.c&255)) break; } return n; };
		auto add=[=](Mr m,uint64_t o,const string& t) { auto i=m.ostm.find(o); if(i==m.ostm.end()) return; Stm& s=m.stm[i->second]; s.out+=t; size_t ln=s.ln,pos=s.pos; s.L=tokenize(s.out); s.ln=ln; s.pos=pos; };
		for(string c:{"C1","C2"}) for(string e:{"Ev","ESt13_Ios_Openmode","ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode"}) {
			bool txt=e[1]=='R'; 
			reg(strdup((OS+c+e).c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { init(m,a[0].c); m.ostm[a[0].c]=a[0].c; if(txt) m.stm[a[0].c].out=sstr(m,a[1].c); return cv(0); });
			reg(strdup((SST+c+e).c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { init(m,a[0].c); m.store(a[0].c+16,8,cv(m.streamVT+64)); m.ostm[a[0].c+16]=a[0].c; if(txt) { m.stm[a[0].c].out=sstr(m,a[1].c); m.stm[a[0].c].L=tokenize(m.stm[a[0].c].out); } return cv(0); }); }
		for(string c:{"D0","D1","D2"}) { reg(strdup((OS+c+"Ev").c_str()),[](Mr m,Tr,Dr,Ar a)->Val { m.ostm.erase(a[0].c); m.stm.erase(a[0].c); return cv(0); }); reg(strdup((SST+c+"Ev").c_str()),[](Mr m,Tr,Dr,Ar a)->Val { m.ostm.erase(a[0].c+16); m.stm.erase(a[0].c); return cv(0); }); }
		for(const string& C:{OS,SST}) { string K=C; K.insert(3,"K");
			reg(strdup((K+"3strEv").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { if(!m.stm.count(a[1].c)) throw EngineError("unknown stream"); m.store(a[0].c,8,cv(a[0].c+16)); setstr(m,a[0].c,m.stm[a[1].c].out); return cv(0); });
			reg(strdup((C+"3strERKNS_12basic_stringIcS2_S3_EE").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { if(!m.stm.count(a[0].c)) throw EngineError("unknown stream"); Stm& s=m.stm[a[0].c]; s=Stm(); s.out=sstr(m,a[1].c); s.L=tokenize(s.out); return cv(0); }); }
		BFn oi=[=](Mr m,Tr,Dr,Ar a)->Val { add(m,a[0].c,a[1].e?string("\1"):std::to_string((int32_t)a[1].c)); return a[0]; };
		BFn ol=[=](Mr m,Tr,Dr,Ar a)->Val { add(m,a[0].c,a[1].e?string("\1"):std::to_string((int64_t)a[1].c)); return a[0]; };
		BFn od=[=](Mr m,Tr,Dr,Ar a)->Val { char b[64]; if(!a[1].e) snprintf(b,sizeof b,"%g",Machine::asD(a[1].c)); add(m,a[0].c,a[1].e?string("\1"):string(b)); return a[0]; };
		for(auto n:{"_ZNSolsEi","_ZNSolsEj","_ZNSolsEs","_ZNSolsEt","_ZNSolsEb","_ZNSo9_M_insertIbEERSoT_"}) reg(n,oi);
		for(auto n:{"_ZNSolsEl","_ZNSolsEm","_ZNSolsEx","_ZNSolsEy","_ZNSo9_M_insertIlEERSoT_","_ZNSo9_M_insertImEERSoT_","_ZNSo9_M_insertIxEERSoT_","_ZNSo9_M_insertIyEERSoT_"}) reg(n,ol);
		for(auto n:{"_ZNSolsEd","_ZNSo9_M_insertIdEERSoT_"}) reg(n,od);
		reg("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_",[=](Mr m,Tr,Dr,Ar a)->Val { add(m,a[0].c,"\n"); return a[0]; });
		reg("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc",[=](Mr m,Tr,Dr,Ar a)->Val { if(m.ostm.count(a[0].c)) add(m,a[0].c,raw(m,a[1].c,strLen(m,a[1].c))); return a[0]; });
		reg("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c",[=](Mr m,Tr,Dr,Ar a)->Val { add(m,a[0].c,string(1,a[1].e?'\1':(char)a[1].c)); return a[0]; }); reg("_ZNSo3putEc",[=](Mr m,Tr,Dr,Ar a)->Val { add(m,a[0].c,string(1,a[1].e?'\1':(char)a[1].c)); return a[0]; });
		reg("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE",[=](Mr m,Tr,Dr,Ar a)->Val { if(m.ostm.count(a[0].c)) add(m,a[0].c,raw(m,m.load(a[1].c,8,false).c,m.concretize(m.load(a[1].c+8,8,false),64))); return a[0]; });
		reg("_ZNSolsEPFRSoS_E",[=](Mr m,Tr,Dr,Ar a)->Val { add(m,a[0].c,"\n"); return a[0]; });
		BFn ow=[=](Mr m,Tr,Dr,Ar a)->Val { if(!m.ostm.count(a[0].c)) return a[0]; add(m,a[0].c,raw(m,a[1].c,m.concretize(a[2],64))); return a[0]; };
		reg("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l",ow); reg("_ZNSo5writeEPKcl",ow);
	}
	reg("vp_write_file",nop);
	// out-of-line members of std::string
	reg(strdup(("_ZN"+SS.substr(1)+"9_M_createERmm").c_str()),[](Mr m,Tr,Dr,Ar a)->Val { uint64_t n=m.concretize(m.load(a[1].c,8,false),64); uint64_t old=m.concretize(a[2],64); if(n>old&&n<2*old) { n=2*old; m.store(a[1].c,8,cv(n)); } return cv(m.newObj(n+1,K_HEAP,16,false,"new")); });
	reg(strdup(("_ZNK"+SS.substr(1)+"7compareEmmPKc").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { return cv((uint32_t)sstr(m,a[0].c).compare(a[1].c,a[2].c,m.cstr(a[3].c))); });
	reg(strdup(("_ZNK"+SS.substr(1)+"4findEPKcmm").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { return cv((uint64_t)sstr(m,a[0].c).find(m.cstr(a[1].c).substr(0,a[3].c),a[2].c)); });
	reg(strdup(("_ZNK"+SS.substr(1)+"4findEcm").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { return cv((uint64_t)sstr(m,a[0].c).find((char)a[1].c,a[2].c)); });
	reg(strdup(("_ZN"+SS.substr(1)+"9_M_assignERKS4_").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { if(a[0].c!=a[1].c) setstr(m,a[0].c,sstr(m,a[1].c)); return cv(0); });
	reg(strdup(("_ZN"+SS.substr(1)+"9_M_appendEPKcm").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { string s=sstr(m,a[0].c); for(uint64_t i=0;i<a[2].c;i++) s+=(char)m.load(a[1].c+i,1,false).c; setstr(m,a[0].c,s); return a[0]; });
	reg(strdup(("_ZN"+SS.substr(1)+"10_M_replaceEmmPKcm").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { string s=sstr(m,a[0].c),t; for(uint64_t i=0;i<a[4].c;i++) t+=(char)m.load(a[3].c+i,1,false).c; s.replace(a[1].c,a[2].c,t); setstr(m,a[0].c,s); return a[0]; });
	reg(strdup(("_ZN"+SS.substr(1)+"9push_backEc").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { setstr(m,a[0].c,sstr(m,a[0].c)+(char)a[1].c); return cv(0); });
	reg("tolower",[](Mr m,Tr,Dr,Ar a)->Val { return cv((uint32_t)tolower((int)m.concretize(a[0],32))); }); reg("toupper",[](Mr m,Tr,Dr,Ar a)->Val { return cv((uint32_t)toupper((int)m.concretize(a[0],32))); }); reg("isspace",[](Mr m,Tr,Dr,Ar a)->Val { return cv((uint32_t)isspace((int)m.concretize(a[0],32))); });
	reg("strtod",[](Mr m,Tr,Dr,Ar a)->Val { string s=m.cstr(a[0].c); char* e; double v=strtod(s.c_str(),&e); if(a[1].c) m.store(a[1].c,8,cv(a[0].c+(e-s.c_str()))); return cv(Machine::asU(v)); });
	// std::string: pointer, length, then the local buffer or the capacity
	{
		const string B="_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE";
		auto get=[](Mr m,uint64_t p,uint64_t n) { vector<Val> v; for(uint64_t i=0;i<n;i++) v.push_back(m.load(p+i,1,false)); return v; };
		auto put=[](Mr m,uint64_t a,const vector<Val>& v) { uint64_t p=m.load(a,8,false).c; uint64_t cap=p==a+16?15:m.load(a+16,8,false).c; if(v.size()>cap) { uint64_t c=std::max<uint64_t>(v.size(),2*cap), q=m.newObj(c+1,K_HEAP,16,false,"new"); if(p!=a+16) m.freeObj(p,"new"); m.store(a,8,cv(q)); m.store(a+16,8,cv(c)); p=q; }
			for(size_t i=0;i<v.size();i++) m.store(p+i,1,v[i]); m.store(p+v.size(),1,cv(0)); m.store(a+8,8,cv(v.size())); };
		auto own=[=](Mr m,uint64_t a) { return get(m,m.load(a,8,false).c,m.concretize(m.load(a+8,8,false),64)); };
		reg(strdup((B+"12_M_constructEmc").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { uint64_t n=m.concretize(a[1],64); put(m,a[0].c,vector<Val>(n,a[2])); return cv(0); });
		reg(strdup((B+"9_M_createERmm").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { uint64_t c=m.concretize(m.load(a[1].c,8,false),64),o=m.concretize(a[2],64); if(c>o&&c<2*o) { c=2*o; m.store(a[1].c,8,cv(c)); } return cv(allocMem(m,cv(c+1),16,false,"new")); });
		reg(strdup((B+"9_M_appendEPKcm").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { auto v=own(m,a[0].c), w=get(m,a[1].c,m.concretize(a[2],64)); v.insert(v.end(),w.begin(),w.end()); put(m,a[0].c,v); return a[0]; });
		reg(strdup((B+"6appendEPKc").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { auto v=own(m,a[0].c); for(char c:m.cstr(a[1].c)) v.push_back(cv((uint8_t)c)); put(m,a[0].c,v); return a[0]; });
		BFn repl=[=](Mr m,Tr,Dr,Ar a)->Val { auto v=own(m,a[0].c); uint64_t p=m.concretize(a[1],64),n=std::min<uint64_t>(m.concretize(a[2],64),v.size()-p); auto w=get(m,a[3].c,m.concretize(a[4],64)); v.erase(v.begin()+p,v.begin()+p+n); v.insert(v.begin()+p,w.begin(),w.end()); put(m,a[0].c,v); return a[0]; };
		reg(strdup((B+"10_M_replaceEmmPKcm").c_str()),repl); reg(strdup((B+"7replaceEmmPKcm").c_str()),repl);
		reg(strdup((B+"14_M_replace_auxEmmmc").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { auto v=own(m,a[0].c); uint64_t p=m.concretize(a[1],64),n=m.concretize(a[2],64); v.erase(v.begin()+p,v.begin()+p+n); v.insert(v.begin()+p,m.concretize(a[3],64),a[4]); put(m,a[0].c,v); return a[0]; });
		reg(strdup((B+"9_M_assignERKS4_").c_str()),[=](Mr m,Tr,Dr,Ar a)->Val { auto v=own(m,a[1].c); if(a[0].c!=a[1].c) put(m,a[0].c,v); return cv(0); });
	}
}
