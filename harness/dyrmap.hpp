// Where the values of the records of dynamic models belong: position in the record, type and name.
// First entry of a record is position 0. The model of a load is the one named by USRLOD.
#pragma once
struct DyrPos { const char *model; int pos; char type; const char *key; };
static const DyrPos DYR[]={
  {"ACMTBLU1",11,'d',LOAD_TSTALL},  {"ACMTBLU1",12,'d',LOAD_TRESTART},  {"ACMTBLU1",13,'d',LOAD_TV},  {"ACMTBLU1",14,'d',LOAD_TF},  {"ACMTBLU1",15,'d',LOAD_COMPLF},  {"ACMTBLU1",16,'d',LOAD_COMPPF},
  {"ACMTBLU1",17,'d',LOAD_VSTALL},  {"ACMTBLU1",18,'d',LOAD_RSTALL},  {"ACMTBLU1",19,'d',LOAD_XSTALL},  {"ACMTBLU1",20,'d',LOAD_LFADJ},  {"ACMTBLU1",21,'d',LOAD_KP1},  {"ACMTBLU1",22,'d',LOAD_NP1},
  {"ACMTBLU1",23,'d',LOAD_KQ1},  {"ACMTBLU1",24,'d',LOAD_NQ1},  {"ACMTBLU1",25,'d',LOAD_KP2},  {"ACMTBLU1",26,'d',LOAD_NP2},  {"ACMTBLU1",27,'d',LOAD_KQ2},  {"ACMTBLU1",28,'d',LOAD_NQ2},
  {"ACMTBLU1",29,'d',LOAD_VBRK},  {"ACMTBLU1",30,'d',LOAD_FRST},  {"ACMTBLU1",31,'d',LOAD_VRST},  {"ACMTBLU1",32,'d',LOAD_CMPKPF},  {"ACMTBLU1",33,'d',LOAD_CMPKQF},  {"ACMTBLU1",34,'d',LOAD_VC1OFF},
  {"ACMTBLU1",35,'d',LOAD_VC2OFF},  {"ACMTBLU1",36,'d',LOAD_VC1ON},  {"ACMTBLU1",37,'d',LOAD_VC2ON},  {"ACMTBLU1",38,'d',LOAD_TTH},  {"ACMTBLU1",39,'d',LOAD_TH1T},  {"ACMTBLU1",40,'d',LOAD_TH2T},
  {"ACMTBLU1",41,'d',LOAD_FUVR},  {"ACMTBLU1",42,'d',LOAD_UVTR1},  {"ACMTBLU1",43,'d',LOAD_TTR1},  {"ACMTBLU1",44,'d',LOAD_UVTR2},  {"ACMTBLU1",45,'d',LOAD_TTR2},  {"ACMTBLU1",46,'d',LOAD_AC_PERC},
  {"CIM6BL",3,'i',LOAD_IT},  {"CIM6BL",4,'d',LOAD_RA},  {"CIM6BL",5,'d',LOAD_XA},  {"CIM6BL",6,'d',LOAD_XM},  {"CIM6BL",7,'d',LOAD_R1},  {"CIM6BL",8,'d',LOAD_X1},
  {"CIM6BL",9,'d',LOAD_R2},  {"CIM6BL",10,'d',LOAD_X2},  {"CIM6BL",11,'d',LOAD_E1},  {"CIM6BL",12,'d',LOAD_SE1},  {"CIM6BL",13,'d',LOAD_E2},  {"CIM6BL",14,'d',LOAD_SE2},
  {"CIM6BL",15,'d',LOAD_MBASE},  {"CIM6BL",16,'d',LOAD_PMULT},  {"CIM6BL",17,'d',LOAD_H},  {"CIM6BL",18,'d',LOAD_VI},  {"CIM6BL",19,'d',LOAD_TI},  {"CIM6BL",20,'d',LOAD_TB},
  {"CIM6BL",21,'d',LOAD_A},  {"CIM6BL",22,'d',LOAD_B},  {"CIM6BL",23,'d',LOAD_D},  {"CIM6BL",24,'d',LOAD_E},  {"CIM6BL",25,'d',LOAD_C0},  {"CIM6BL",26,'d',LOAD_TNOM},
  {"CIM6BL",27,'d',LOAD_DYN_PERC},  {"CMLDBLU1",5,'i',LOAD_IT},  {"CMLDBLU1",11,'d',LOAD_MVA},  {"CMLDBLU1",12,'d',LOAD_BSS},  {"CMLDBLU1",13,'d',LOAD_RFDR},  {"CMLDBLU1",14,'d',LOAD_XFDR},
  {"CMLDBLU1",15,'d',LOAD_FB},  {"CMLDBLU1",16,'d',LOAD_XXF},  {"CMLDBLU1",17,'d',LOAD_TFIXHS},  {"CMLDBLU1",18,'d',LOAD_TFIXLS},  {"CMLDBLU1",19,'d',LOAD_LTC},  {"CMLDBLU1",20,'d',LOAD_TMIN},
  {"CMLDBLU1",21,'d',LOAD_TMAX},  {"CMLDBLU1",22,'d',LOAD_STEP},  {"CMLDBLU1",23,'d',LOAD_VMIN},  {"CMLDBLU1",24,'d',LOAD_VMAX},  {"CMLDBLU1",25,'d',LOAD_TDEL},  {"CMLDBLU1",26,'d',LOAD_TTAP},
  {"CMLDBLU1",27,'d',LOAD_RCOMP},  {"CMLDBLU1",28,'d',LOAD_XCOMP},  {"CMLDBLU1",29,'d',LOAD_FMA},  {"CMLDBLU1",30,'d',LOAD_FMB},  {"CMLDBLU1",31,'d',LOAD_FMC},  {"CMLDBLU1",32,'d',LOAD_FMD},
  {"CMLDBLU1",33,'d',LOAD_FEL},  {"CMLDBLU1",34,'d',LOAD_PFEL},  {"CMLDBLU1",35,'d',LOAD_VD1},  {"CMLDBLU1",36,'d',LOAD_VD2},  {"CMLDBLU1",37,'d',LOAD_PFS},  {"CMLDBLU1",38,'d',LOAD_P1E},
  {"CMLDBLU1",39,'d',LOAD_P1C},  {"CMLDBLU1",40,'d',LOAD_P2E},  {"CMLDBLU1",41,'d',LOAD_P2C},  {"CMLDBLU1",42,'d',LOAD_PFREQ},  {"CMLDBLU1",43,'d',LOAD_Q1E},  {"CMLDBLU1",44,'d',LOAD_Q1C},
  {"CMLDBLU1",45,'d',LOAD_Q2E},  {"CMLDBLU1",46,'d',LOAD_Q2C},  {"CMLDBLU1",47,'d',LOAD_QFREQ},  {"CMLDBLU1",48,'i',LOAD_MTPA},  {"CMLDBLU1",49,'d',LOAD_LFMA},  {"CMLDBLU1",50,'d',LOAD_RSA},
  {"CMLDBLU1",51,'d',LOAD_LSA},  {"CMLDBLU1",52,'d',LOAD_LPA},  {"CMLDBLU1",53,'d',LOAD_LPPA},  {"CMLDBLU1",54,'d',LOAD_TPOA},  {"CMLDBLU1",55,'d',LOAD_TPPOA},  {"CMLDBLU1",56,'d',LOAD_HA},
  {"CMLDBLU1",57,'d',LOAD_ETRQA},  {"CMLDBLU1",58,'d',LOAD_VTR1A},  {"CMLDBLU1",59,'d',LOAD_TTR1A},  {"CMLDBLU1",60,'d',LOAD_FTR1A},  {"CMLDBLU1",61,'d',LOAD_VRC1A},  {"CMLDBLU1",62,'d',LOAD_TRC1A},
  {"CMLDBLU1",63,'d',LOAD_VTR2A},  {"CMLDBLU1",64,'d',LOAD_TTR2A},  {"CMLDBLU1",65,'d',LOAD_FTR2A},  {"CMLDBLU1",66,'d',LOAD_VRC2A},  {"CMLDBLU1",67,'d',LOAD_TRC2A},  {"CMLDBLU1",68,'i',LOAD_MTPB},
  {"CMLDBLU1",69,'d',LOAD_LFMB},  {"CMLDBLU1",70,'d',LOAD_RSB},  {"CMLDBLU1",71,'d',LOAD_LSB},  {"CMLDBLU1",72,'d',LOAD_LPB},  {"CMLDBLU1",73,'d',LOAD_LPPB},  {"CMLDBLU1",74,'d',LOAD_TPOB},
  {"CMLDBLU1",75,'d',LOAD_TPPOB},  {"CMLDBLU1",76,'d',LOAD_HB},  {"CMLDBLU1",77,'d',LOAD_ETRQB},  {"CMLDBLU1",78,'d',LOAD_VTR1B},  {"CMLDBLU1",79,'d',LOAD_TTR1B},  {"CMLDBLU1",80,'d',LOAD_FTR1B},
  {"CMLDBLU1",81,'d',LOAD_VRC1B},  {"CMLDBLU1",82,'d',LOAD_TRC1B},  {"CMLDBLU1",83,'d',LOAD_VTR2B},  {"CMLDBLU1",84,'d',LOAD_TTR2B},  {"CMLDBLU1",85,'d',LOAD_FTR2B},  {"CMLDBLU1",86,'d',LOAD_VRC2B},
  {"CMLDBLU1",87,'d',LOAD_TRC2B},  {"CMLDBLU1",88,'i',LOAD_MTPC},  {"CMLDBLU1",89,'d',LOAD_LFMC},  {"CMLDBLU1",90,'d',LOAD_RSC},  {"CMLDBLU1",91,'d',LOAD_LSC},  {"CMLDBLU1",92,'d',LOAD_LPC},
  {"CMLDBLU1",93,'d',LOAD_LPPC},  {"CMLDBLU1",94,'d',LOAD_TPOC},  {"CMLDBLU1",95,'d',LOAD_TPPOC},  {"CMLDBLU1",96,'d',LOAD_HC},  {"CMLDBLU1",97,'d',LOAD_ETRQC},  {"CMLDBLU1",98,'d',LOAD_VTR1C},
  {"CMLDBLU1",99,'d',LOAD_TTR1C},  {"CMLDBLU1",100,'d',LOAD_FTR1C},  {"CMLDBLU1",101,'d',LOAD_VRC1C},  {"CMLDBLU1",102,'d',LOAD_TRC1C},  {"CMLDBLU1",103,'d',LOAD_VTR2C},  {"CMLDBLU1",104,'d',LOAD_TTR2C},
  {"CMLDBLU1",105,'d',LOAD_FTR2C},  {"CMLDBLU1",106,'d',LOAD_VRC2C},  {"CMLDBLU1",107,'d',LOAD_TRC2C},  {"CMLDBLU1",108,'d',LOAD_TSTALL},  {"CMLDBLU1",109,'d',LOAD_TRST},  {"CMLDBLU1",110,'d',LOAD_TV},
  {"CMLDBLU1",111,'d',LOAD_TF},  {"CMLDBLU1",112,'d',LOAD_LFMD},  {"CMLDBLU1",113,'d',LOAD_COMPPF},  {"CMLDBLU1",114,'d',LOAD_VSTALL},  {"CMLDBLU1",115,'d',LOAD_RSTALL},  {"CMLDBLU1",116,'d',LOAD_XSTALL},
  {"CMLDBLU1",117,'d',LOAD_LFADJ},  {"CMLDBLU1",118,'d',LOAD_KP1},  {"CMLDBLU1",119,'d',LOAD_NP1},  {"CMLDBLU1",120,'d',LOAD_KQ1},  {"CMLDBLU1",121,'d',LOAD_NQ1},  {"CMLDBLU1",122,'d',LOAD_KP2},
  {"CMLDBLU1",123,'d',LOAD_NP2},  {"CMLDBLU1",124,'d',LOAD_KQ2},  {"CMLDBLU1",125,'d',LOAD_NQ2},  {"CMLDBLU1",126,'d',LOAD_VBRK},  {"CMLDBLU1",127,'d',LOAD_FRST},  {"CMLDBLU1",128,'d',LOAD_VRST},
  {"CMLDBLU1",129,'d',LOAD_CMPKPF},  {"CMLDBLU1",130,'d',LOAD_CMPKQF},  {"CMLDBLU1",131,'d',LOAD_VC1OFF},  {"CMLDBLU1",132,'d',LOAD_VC2OFF},  {"CMLDBLU1",133,'d',LOAD_VC1ON},  {"CMLDBLU1",134,'d',LOAD_VC2ON},
  {"CMLDBLU1",135,'d',LOAD_TTH},  {"CMLDBLU1",136,'d',LOAD_TH1T},  {"CMLDBLU1",137,'d',LOAD_TH2T},  {"CMLDBLU1",138,'d',LOAD_FUVR},  {"CMLDBLU1",139,'d',LOAD_UVTR1},  {"CMLDBLU1",140,'d',LOAD_TTR1},
  {"CMLDBLU1",141,'d',LOAD_UVTR2},  {"CMLDBLU1",142,'d',LOAD_TTR2},  {"DISTR1",4,'i',RELAY_RS},  {"DISTR1",5,'i',RELAY_MTYPE},  {"DISTR1",6,'i',RELAY_BMON},  {"DISTR1",7,'i',RELAY_IBUS1},
  {"DISTR1",8,'i',RELAY_JBUS1},  {"DISTR1",10,'i',RELAY_IBUS2},  {"DISTR1",11,'i',RELAY_JBUS2},  {"DISTR1",13,'i',RELAY_IBUS3},  {"DISTR1",14,'i',RELAY_JBUS3},  {"DISTR1",16,'d',RELAY_ZONE1_TIME},
  {"DISTR1",17,'d',RELAY_ZONE1_REACH},  {"DISTR1",18,'d',RELAY_ZONE1_CENANG},  {"DISTR1",19,'d',RELAY_ZONE1_CENDIS},  {"DISTR1",20,'d',RELAY_ZONE2_TIME},  {"DISTR1",21,'d',RELAY_ZONE2_REACH},  {"DISTR1",22,'d',RELAY_ZONE2_CENANG},
  {"DISTR1",23,'d',RELAY_ZONE2_CENDIS},  {"DISTR1",24,'d',RELAY_ZONE3_TIME},  {"DISTR1",25,'d',RELAY_ZONE3_REACH},  {"DISTR1",26,'d',RELAY_ZONE3_CENANG},  {"DISTR1",27,'d',RELAY_ZONE3_CENDIS},  {"DISTR1",28,'d',RELAY_DIRANG},
  {"DISTR1",29,'d',RELAY_THCUR},  {"DISTR1",30,'d',RELAY_SEBTIME},  {"DISTR1",31,'d',RELAY_SERCTIME},  {"DISTR1",32,'d',RELAY_TRBTIME},  {"DISTR1",33,'d',RELAY_TRRCTIME},  {"DISTR1",34,'i',RELAY_BLTYPE1},
  {"DISTR1",35,'d',RELAY_BLINT1},  {"DISTR1",36,'d',RELAY_BLRO1},  {"DISTR1",37,'i',RELAY_BLTYPE2},  {"DISTR1",38,'d',RELAY_BLINT2},  {"DISTR1",39,'d',RELAY_BLRO2},  {"ESST1A",3,'d',EXCITER_UEL},
  {"ESST1A",4,'d',EXCITER_VOS},  {"ESST1A",5,'d',EXCITER_TR},  {"ESST1A",6,'d',EXCITER_VIMAX},  {"ESST1A",7,'d',EXCITER_VIMIN},  {"ESST1A",8,'d',EXCITER_TC},  {"ESST1A",9,'d',EXCITER_TB},
  {"ESST1A",10,'d',EXCITER_TC1},  {"ESST1A",11,'d',EXCITER_TB1},  {"ESST1A",12,'d',EXCITER_KA},  {"ESST1A",13,'d',EXCITER_TA},  {"ESST1A",14,'d',EXCITER_VAMAX},  {"ESST1A",15,'d',EXCITER_VAMIN},
  {"ESST1A",16,'d',EXCITER_VRMAX},  {"ESST1A",17,'d',EXCITER_VRMIN},  {"ESST1A",18,'d',EXCITER_KC},  {"ESST1A",19,'d',EXCITER_KF},  {"ESST1A",20,'d',EXCITER_TF},  {"ESST1A",21,'d',EXCITER_KLR},
  {"ESST1A",22,'d',EXCITER_ILR},  {"ESST4B",3,'d',EXCITER_TR},  {"ESST4B",4,'d',EXCITER_KPR},  {"ESST4B",5,'d',EXCITER_KIR},  {"ESST4B",6,'d',EXCITER_VRMAX},  {"ESST4B",7,'d',EXCITER_VRMIN},
  {"ESST4B",8,'d',EXCITER_TA},  {"ESST4B",9,'d',EXCITER_KPM},  {"ESST4B",10,'d',EXCITER_KIM},  {"ESST4B",11,'d',EXCITER_VMMAX},  {"ESST4B",12,'d',EXCITER_VMMIN},  {"ESST4B",13,'d',EXCITER_KG},
  {"ESST4B",14,'d',EXCITER_KP},  {"ESST4B",15,'d',EXCITER_KI},  {"ESST4B",16,'d',EXCITER_VBMAX},  {"ESST4B",17,'d',EXCITER_KC},  {"ESST4B",18,'d',EXCITER_XL},  {"ESST4B",19,'d',EXCITER_THETAP},
  {"EXDC1",3,'d',EXCITER_TR},  {"EXDC1",4,'d',EXCITER_KA},  {"EXDC1",5,'d',EXCITER_TA},  {"EXDC1",6,'d',EXCITER_TB},  {"EXDC1",7,'d',EXCITER_TC},  {"EXDC1",8,'d',EXCITER_VRMAX},
  {"EXDC1",9,'d',EXCITER_VRMIN},  {"EXDC1",10,'d',EXCITER_KE},  {"EXDC1",11,'d',EXCITER_TE},  {"EXDC1",12,'d',EXCITER_KF},  {"EXDC1",13,'d',EXCITER_TF1},  {"EXDC1",14,'d',EXCITER_SWITCH},
  {"EXDC1",15,'d',EXCITER_E1},  {"EXDC1",16,'d',EXCITER_SE1},  {"EXDC1",17,'d',EXCITER_E2},  {"EXDC1",18,'d',EXCITER_SE2},  {"FRQTPAT",0,'i',RELAY_MINS},  {"FRQTPAT",2,'i',RELAY_FREBUS},
  {"FRQTPAT",5,'d',RELAY_FL},  {"FRQTPAT",6,'d',RELAY_FU},  {"FRQTPAT",7,'d',RELAY_TP},  {"FRQTPAT",8,'d',RELAY_TB},  {"GAST",3,'d',GOVERNOR_R},  {"GAST",4,'d',GOVERNOR_T1},
  {"GAST",5,'d',GOVERNOR_T2},  {"GAST",6,'d',GOVERNOR_T3},  {"GAST",7,'d',GOVERNOR_AT},  {"GAST",8,'d',GOVERNOR_KT},  {"GAST",9,'d',GOVERNOR_VMAX},  {"GAST",10,'d',GOVERNOR_VMIN},
  {"GAST",11,'d',GOVERNOR_DT},  {"GDFORM",3,'d',GENERATOR_MQ},  {"GDFORM",4,'d',GENERATOR_KPV},  {"GDFORM",5,'d',GENERATOR_KIV},  {"GDFORM",6,'d',GENERATOR_MP},  {"GDFORM",7,'d',GENERATOR_KPPMAX},
  {"GDFORM",8,'d',GENERATOR_KIPMAX},  {"GDFORM",9,'d',GENERATOR_PMAX},  {"GDFORM",10,'d',GENERATOR_PMIN},  {"GDFORM",11,'d',GENERATOR_EMAX},  {"GDFORM",12,'d',GENERATOR_EMIN},  {"GDFORM",13,'d',GENERATOR_TPF},
  {"GDFORM",14,'d',GENERATOR_IMAX},  {"GDFORM",15,'d',GENERATOR_QMAX},  {"GDFORM",16,'d',GENERATOR_QMIN},  {"GDFORM",17,'d',GENERATOR_KPQMAX},  {"GDFORM",18,'d',GENERATOR_KIQMAX},  {"GDFORM",19,'d',GENERATOR_TQF},
  {"GDFORM",20,'d',GENERATOR_TVF},  {"GDFORM",21,'i',GENERATOR_VFLAG},  {"GENCLS",3,'d',GENERATOR_INERTIA_CONSTANT_H},  {"GENCLS",4,'d',GENERATOR_DAMPING_COEFFICIENT_0},  {"GENCLS",5,'d',GENERATOR_TRANSIENT_REACTANCE},  {"GENROU",3,'d',GENERATOR_TDOP},
  {"GENROU",4,'d',GENERATOR_TDOPP},  {"GENROU",5,'d',GENERATOR_TQOP},  {"GENROU",6,'d',GENERATOR_TQOPP},  {"GENROU",7,'d',GENERATOR_INERTIA_CONSTANT_H},  {"GENROU",8,'d',GENERATOR_DAMPING_COEFFICIENT_0},  {"GENROU",9,'d',GENERATOR_XD},
  {"GENROU",10,'d',GENERATOR_XQ},  {"GENROU",11,'d',GENERATOR_XDP},  {"GENROU",12,'d',GENERATOR_XQP},  {"GENROU",13,'d',GENERATOR_XDPP},  {"GENROU",14,'d',GENERATOR_XL},  {"GENROU",15,'d',GENERATOR_S1},
  {"GENROU",16,'d',GENERATOR_S12},  {"GENSAL",3,'d',GENERATOR_TDOP},  {"GENSAL",4,'d',GENERATOR_TDOPP},  {"GENSAL",5,'d',GENERATOR_TQOPP},  {"GENSAL",6,'d',GENERATOR_INERTIA_CONSTANT_H},  {"GENSAL",7,'d',GENERATOR_DAMPING_COEFFICIENT_0},
  {"GENSAL",8,'d',GENERATOR_XD},  {"GENSAL",9,'d',GENERATOR_XQ},  {"GENSAL",10,'d',GENERATOR_XDP},  {"GENSAL",11,'d',GENERATOR_XDPP},  {"GENSAL",12,'d',GENERATOR_XL},  {"GENSAL",13,'d',GENERATOR_S1},
  {"GENSAL",14,'d',GENERATOR_S12},  {"GGOV1",3,'d',GOVERNOR_RSELECT},  {"GGOV1",4,'d',GOVERNOR_FLAGSWITCH},  {"GGOV1",5,'d',GOVERNOR_R},  {"GGOV1",6,'d',GOVERNOR_TPELEC},  {"GGOV1",7,'d',GOVERNOR_MAXERR},
  {"GGOV1",8,'d',GOVERNOR_MINERR},  {"GGOV1",9,'d',GOVERNOR_KPGOV},  {"GGOV1",10,'d',GOVERNOR_KIGOV},  {"GGOV1",11,'d',GOVERNOR_KDGOV},  {"GGOV1",12,'d',GOVERNOR_TDGOV},  {"GGOV1",13,'d',GOVERNOR_VMAX},
  {"GGOV1",14,'d',GOVERNOR_VMIN},  {"GGOV1",15,'d',GOVERNOR_TACT},  {"GGOV1",16,'d',GOVERNOR_KTURB},  {"GGOV1",17,'d',GOVERNOR_WFNL},  {"GGOV1",18,'d',GOVERNOR_TB},  {"GGOV1",19,'d',GOVERNOR_TC},
  {"GGOV1",20,'d',GOVERNOR_TENG},  {"GGOV1",21,'d',GOVERNOR_TFLOAD},  {"GGOV1",22,'d',GOVERNOR_KPLOAD},  {"GGOV1",23,'d',GOVERNOR_KILOAD},  {"GGOV1",24,'d',GOVERNOR_LDREF},  {"GGOV1",25,'d',GOVERNOR_DM},
  {"GGOV1",26,'d',GOVERNOR_ROPEN},  {"GGOV1",27,'d',GOVERNOR_RCLOSE},  {"GGOV1",28,'d',GOVERNOR_KIMW},  {"GGOV1",29,'d',GOVERNOR_ASET},  {"GGOV1",30,'d',GOVERNOR_KA},  {"GGOV1",31,'d',GOVERNOR_TA},
  {"GGOV1",32,'d',GOVERNOR_TRATE},  {"GGOV1",33,'d',GOVERNOR_DB},  {"GGOV1",34,'d',GOVERNOR_TSA},  {"GGOV1",35,'d',GOVERNOR_TSB},  {"GGOV1",36,'d',GOVERNOR_RUP},  {"GGOV1",37,'d',GOVERNOR_RDOWN},
  {"HYGOV",3,'d',GOVERNOR_R},  {"HYGOV",4,'d',GOVERNOR_r},  {"HYGOV",5,'d',GOVERNOR_TR},  {"HYGOV",6,'d',GOVERNOR_TF},  {"HYGOV",7,'d',GOVERNOR_TG},  {"HYGOV",8,'d',GOVERNOR_VELM},
  {"HYGOV",9,'d',GOVERNOR_GMAX},  {"HYGOV",10,'d',GOVERNOR_GMIN},  {"HYGOV",11,'d',GOVERNOR_TW},  {"HYGOV",12,'d',GOVERNOR_AT},  {"HYGOV",13,'d',GOVERNOR_DT},  {"HYGOV",14,'d',GOVERNOR_QNL},
  {"IEEET1",3,'d',EXCITER_TR},  {"IEEET1",4,'d',EXCITER_KA},  {"IEEET1",5,'d',EXCITER_TA},  {"IEEET1",6,'d',EXCITER_VRMAX},  {"IEEET1",7,'d',EXCITER_VRMIN},  {"IEEET1",8,'d',EXCITER_KE},
  {"IEEET1",9,'d',EXCITER_TE},  {"IEEET1",10,'d',EXCITER_KF},  {"IEEET1",11,'d',EXCITER_TF1},  {"IEEET1",12,'d',EXCITER_SWITCH},  {"IEEET1",13,'d',EXCITER_E1},  {"IEEET1",14,'d',EXCITER_SE1},
  {"IEEET1",15,'d',EXCITER_E2},  {"IEEET1",16,'d',EXCITER_SE2},  {"IEELBL",3,'d',LOAD_A1},  {"IEELBL",4,'d',LOAD_A2},  {"IEELBL",5,'d',LOAD_A3},  {"IEELBL",6,'d',LOAD_A4},
  {"IEELBL",7,'d',LOAD_A5},  {"IEELBL",8,'d',LOAD_A6},  {"IEELBL",9,'d',LOAD_A7},  {"IEELBL",10,'d',LOAD_A8},  {"IEELBL",11,'d',LOAD_N1},  {"IEELBL",12,'d',LOAD_N2},
  {"IEELBL",13,'d',LOAD_N3},  {"IEELBL",14,'d',LOAD_N4},  {"IEELBL",15,'d',LOAD_N5},  {"IEELBL",16,'d',LOAD_N6},  {"LVSHBL",3,'i',RELAY_JBUS},  {"LVSHBL",4,'d',RELAY_V1},
  {"LVSHBL",5,'d',RELAY_T1},  {"LVSHBL",6,'d',RELAY_F1},  {"LVSHBL",7,'d',RELAY_V2},  {"LVSHBL",8,'d',RELAY_T2},  {"LVSHBL",9,'d',RELAY_F2},  {"LVSHBL",10,'d',RELAY_V3},
  {"LVSHBL",11,'d',RELAY_T3},  {"LVSHBL",12,'d',RELAY_F3},  {"LVSHBL",13,'d',RELAY_TB},  {"PSSSIM",3,'i',PSSSIM_INPUTTYPE},  {"PSSSIM",4,'i',PSSSIM_BUS1},  {"PSSSIM",5,'i',PSSSIM_BUS2},
  {"PSSSIM",6,'i',PSSSIM_BUS3},  {"PSSSIM",7,'i',PSSSIM_BUS4},  {"PSSSIM",8,'i',PSSSIM_BUS5},  {"PSSSIM",9,'i',PSSSIM_BUS6},  {"PSSSIM",10,'d',PSSSIM_GAINK},  {"PSSSIM",11,'d',PSSSIM_TW},
  {"PSSSIM",12,'d',PSSSIM_T1},  {"PSSSIM",13,'d',PSSSIM_T2},  {"PSSSIM",14,'d',PSSSIM_T3},  {"PSSSIM",15,'d',PSSSIM_T4},  {"PSSSIM",16,'d',PSSSIM_MAXOUT},  {"PSSSIM",17,'d',PSSSIM_MINOUT},
  {"REECA1",3,'i',GENERATOR_REECA_IREG},  {"REECA1",4,'i',GENERATOR_REECA_PFFLAG},  {"REECA1",5,'i',GENERATOR_REECA_VFLAG},  {"REECA1",6,'i',GENERATOR_REECA_QFLAG},  {"REECA1",7,'i',GENERATOR_REECA_PFLAG},  {"REECA1",8,'i',GENERATOR_REECA_PQFLAG},
  {"REECA1",9,'d',GENERATOR_REECA_VDIP},  {"REECA1",10,'d',GENERATOR_REECA_VUP},  {"REECA1",11,'d',GENERATOR_REECA_TRV},  {"REECA1",12,'d',GENERATOR_REECA_DBD1},  {"REECA1",13,'d',GENERATOR_REECA_DBD2},  {"REECA1",14,'d',GENERATOR_REECA_KQV},
  {"REECA1",15,'d',GENERATOR_REECA_IQH1},  {"REECA1",16,'d',GENERATOR_REECA_IQL1},  {"REECA1",17,'d',GENERATOR_REECA_VREF0},  {"REECA1",18,'d',GENERATOR_REECA_IQFRZ},  {"REECA1",19,'d',GENERATOR_REECA_THLD},  {"REECA1",20,'d',GENERATOR_REECA_THLD2},
  {"REECA1",21,'d',GENERATOR_REECA_TP},  {"REECA1",22,'d',GENERATOR_REECA_QMAX},  {"REECA1",23,'d',GENERATOR_REECA_QMIN},  {"REECA1",24,'d',GENERATOR_REECA_VMAX},  {"REECA1",25,'d',GENERATOR_REECA_VMIN},  {"REECA1",26,'d',GENERATOR_REECA_KQP},
  {"REECA1",27,'d',GENERATOR_REECA_KQI},  {"REECA1",28,'d',GENERATOR_REECA_KVP},  {"REECA1",29,'d',GENERATOR_REECA_KVI},  {"REECA1",30,'d',GENERATOR_REECA_VBIAS},  {"REECA1",31,'d',GENERATOR_REECA_TIQ},  {"REECA1",32,'d',GENERATOR_REECA_DPMAX},
  {"REECA1",33,'d',GENERATOR_REECA_DPMIN},  {"REECA1",34,'d',GENERATOR_REECA_PMAX},  {"REECA1",35,'d',GENERATOR_REECA_PMIN},  {"REECA1",36,'d',GENERATOR_REECA_IMAX},  {"REECA1",37,'d',GENERATOR_REECA_TPORD},  {"REECA1",38,'d',GENERATOR_REECA_VQ1},
  {"REECA1",39,'d',GENERATOR_REECA_IQ1},  {"REECA1",40,'d',GENERATOR_REECA_VQ2},  {"REECA1",41,'d',GENERATOR_REECA_IQ2},  {"REECA1",42,'d',GENERATOR_REECA_VQ3},  {"REECA1",43,'d',GENERATOR_REECA_IQ3},  {"REECA1",44,'d',GENERATOR_REECA_VQ4},
  {"REECA1",45,'d',GENERATOR_REECA_IQ4},  {"REECA1",46,'d',GENERATOR_REECA_VP1},  {"REECA1",47,'d',GENERATOR_REECA_IP1},  {"REECA1",48,'d',GENERATOR_REECA_VP2},  {"REECA1",49,'d',GENERATOR_REECA_IP2},  {"REECA1",50,'d',GENERATOR_REECA_VP3},
  {"REECA1",51,'d',GENERATOR_REECA_IP3},  {"REECA1",52,'d',GENERATOR_REECA_VP4},  {"REECA1",53,'d',GENERATOR_REECA_IP4},  {"REGCA1",3,'i',GENERATOR_REGC_LVPLSW},  {"REGCA1",4,'d',GENERATOR_REGC_TG},  {"REGCA1",5,'d',GENERATOR_REGC_RRPWR},
  {"REGCA1",6,'d',GENERATOR_REGC_BRKPT},  {"REGCA1",7,'d',GENERATOR_REGC_ZEROX},  {"REGCA1",8,'d',GENERATOR_REGC_LVPL1},  {"REGCA1",9,'d',GENERATOR_REGC_VOLIM},  {"REGCA1",10,'d',GENERATOR_REGC_LVPNT1},  {"REGCA1",11,'d',GENERATOR_REGC_LVPNT0},
  {"REGCA1",12,'d',GENERATOR_REGC_LOLIM},  {"REGCA1",13,'d',GENERATOR_REGC_TFLTR},  {"REGCA1",14,'d',GENERATOR_REGC_KHV},  {"REGCA1",15,'d',GENERATOR_REGC_IQRMAX},  {"REGCA1",16,'d',GENERATOR_REGC_IQRMIN},  {"REGCA1",17,'d',GENERATOR_REGC_ACCEL},
  {"REGCB1",3,'i',GENERATOR_REGC_RATEFLAG},  {"REGCB1",4,'i',GENERATOR_REGC_PQFLAG},  {"REGCB1",5,'d',GENERATOR_REGC_TG},  {"REGCB1",6,'d',GENERATOR_REGC_TFLTR},  {"REGCB1",7,'d',GENERATOR_REGC_IQRMAX},  {"REGCB1",8,'d',GENERATOR_REGC_IQRMIN},
  {"REGCB1",9,'d',GENERATOR_REGC_RRPWR},  {"REGCB1",10,'d',GENERATOR_REGC_TE},  {"REGCB1",11,'d',GENERATOR_REGC_IMAX},  {"REGCC1",3,'i',GENERATOR_REGC_RATEFLAG},  {"REGCC1",4,'i',GENERATOR_REGC_PQFLAG},  {"REGCC1",5,'d',GENERATOR_REGC_TG},
  {"REGCC1",6,'d',GENERATOR_REGC_TFLTR},  {"REGCC1",7,'d',GENERATOR_REGC_IQRMAX},  {"REGCC1",8,'d',GENERATOR_REGC_IQRMIN},  {"REGCC1",9,'d',GENERATOR_REGC_RRPWR},  {"REGCC1",10,'d',GENERATOR_REGC_TE},  {"REGCC1",11,'d',GENERATOR_REGC_IMAX},
  {"REGCC1",12,'d',GENERATOR_REGC_KIP},  {"REGCC1",13,'d',GENERATOR_REGC_KII},  {"REGCC1",14,'d',GENERATOR_REGC_KPPLL},  {"REGCC1",15,'d',GENERATOR_REGC_KIPLL},  {"REGCC1",16,'d',GENERATOR_REGC_WMAX},  {"REGCC1",17,'d',GENERATOR_REGC_WMIN},
  {"REPCA1",3,'i',GENERATOR_REPCA_IREG},  {"REPCA1",4,'i',GENERATOR_REPCA_BRCH_BUS_FROM},  {"REPCA1",5,'i',GENERATOR_REPCA_BRCH_BUS_TO},  {"REPCA1",7,'i',GENERATOR_REPCA_VC_FLAG},  {"REPCA1",8,'i',GENERATOR_REPCA_REF_FLAG},  {"REPCA1",9,'i',GENERATOR_REPCA_F_FLAG},
  {"REPCA1",10,'d',GENERATOR_REPCA_TFLTR},  {"REPCA1",11,'d',GENERATOR_REPCA_KP},  {"REPCA1",12,'d',GENERATOR_REPCA_KI},  {"REPCA1",13,'d',GENERATOR_REPCA_TFT},  {"REPCA1",14,'d',GENERATOR_REPCA_TFV},  {"REPCA1",15,'d',GENERATOR_REPCA_VFRZ},
  {"REPCA1",16,'d',GENERATOR_REPCA_RC},  {"REPCA1",17,'d',GENERATOR_REPCA_XC},  {"REPCA1",18,'d',GENERATOR_REPCA_KC},  {"REPCA1",19,'d',GENERATOR_REPCA_EMAX},  {"REPCA1",20,'d',GENERATOR_REPCA_EMIN},  {"REPCA1",21,'d',GENERATOR_REPCA_DBD1},
  {"REPCA1",22,'d',GENERATOR_REPCA_DBD2},  {"REPCA1",23,'d',GENERATOR_REPCA_QMAX},  {"REPCA1",24,'d',GENERATOR_REPCA_QMIN},  {"REPCA1",25,'d',GENERATOR_REPCA_KPG},  {"REPCA1",26,'d',GENERATOR_REPCA_KIG},  {"REPCA1",27,'d',GENERATOR_REPCA_TP},
  {"REPCA1",28,'d',GENERATOR_REPCA_FDBD1},  {"REPCA1",29,'d',GENERATOR_REPCA_FDBD2},  {"REPCA1",30,'d',GENERATOR_REPCA_FEMAX},  {"REPCA1",31,'d',GENERATOR_REPCA_FEMIN},  {"REPCA1",32,'d',GENERATOR_REPCA_PMAX},  {"REPCA1",33,'d',GENERATOR_REPCA_PMIN},
  {"REPCA1",34,'d',GENERATOR_REPCA_TG},  {"REPCA1",35,'d',GENERATOR_REPCA_DDN},  {"REPCA1",36,'d',GENERATOR_REPCA_DUP},  {"SEXS",3,'d',EXCITER_TA_OVER_TB},  {"SEXS",4,'d',EXCITER_TB},  {"SEXS",5,'d',EXCITER_K},
  {"SEXS",6,'d',EXCITER_TE},  {"SEXS",7,'d',EXCITER_EMIN},  {"SEXS",8,'d',EXCITER_EMAX},  {"TGOV1",3,'d',GOVERNOR_R},  {"TGOV1",4,'d',GOVERNOR_T1},  {"TGOV1",5,'d',GOVERNOR_VMAX},
  {"TGOV1",6,'d',GOVERNOR_VMIN},  {"TGOV1",7,'d',GOVERNOR_T2},  {"TGOV1",8,'d',GOVERNOR_T3},  {"TGOV1",9,'d',GOVERNOR_DT},  {"WSHYGP",3,'d',GOVERNOR_DB1},  {"WSHYGP",4,'d',GOVERNOR_ERR},
  {"WSHYGP",5,'d',GOVERNOR_TD},  {"WSHYGP",6,'d',GOVERNOR_KI},  {"WSHYGP",7,'d',GOVERNOR_TF},  {"WSHYGP",8,'d',GOVERNOR_KD},  {"WSHYGP",9,'d',GOVERNOR_KP},  {"WSHYGP",10,'d',GOVERNOR_R},
  {"WSHYGP",11,'d',GOVERNOR_TT},  {"WSHYGP",12,'d',GOVERNOR_KG},  {"WSHYGP",13,'d',GOVERNOR_TP},  {"WSHYGP",14,'d',GOVERNOR_VELOPEN},  {"WSHYGP",15,'d',GOVERNOR_VELCLOSE},  {"WSHYGP",16,'d',GOVERNOR_PMAX},
  {"WSHYGP",17,'d',GOVERNOR_PMIN},  {"WSHYGP",18,'d',GOVERNOR_DB2},  {"WSHYGP",19,'d',GOVERNOR_GV1},  {"WSHYGP",20,'d',GOVERNOR_PGV1},  {"WSHYGP",21,'d',GOVERNOR_GV2},  {"WSHYGP",22,'d',GOVERNOR_PGV2},
  {"WSHYGP",23,'d',GOVERNOR_GV3},  {"WSHYGP",24,'d',GOVERNOR_PGV3},  {"WSHYGP",25,'d',GOVERNOR_GV4},  {"WSHYGP",26,'d',GOVERNOR_PGV4},  {"WSHYGP",27,'d',GOVERNOR_GV5},  {"WSHYGP",28,'d',GOVERNOR_PGV5},
  {"WSHYGP",29,'d',GOVERNOR_ATURB},  {"WSHYGP",30,'d',GOVERNOR_BTURB},  {"WSHYGP",31,'d',GOVERNOR_TTURB},  {"WSHYGP",32,'d',GOVERNOR_TRATE},  {"WSIEG1",3,'i',GOVERNOR_JBUS},  {"WSIEG1",4,'i',GOVERNOR_M},
  {"WSIEG1",5,'d',GOVERNOR_K},  {"WSIEG1",6,'d',GOVERNOR_T1},  {"WSIEG1",7,'d',GOVERNOR_T2},  {"WSIEG1",8,'d',GOVERNOR_T3},  {"WSIEG1",9,'d',GOVERNOR_UO},  {"WSIEG1",10,'d',GOVERNOR_UC},
  {"WSIEG1",11,'d',GOVERNOR_PMAX},  {"WSIEG1",12,'d',GOVERNOR_PMIN},  {"WSIEG1",13,'d',GOVERNOR_T4},  {"WSIEG1",14,'d',GOVERNOR_K1},  {"WSIEG1",15,'d',GOVERNOR_K2},  {"WSIEG1",16,'d',GOVERNOR_T5},
  {"WSIEG1",17,'d',GOVERNOR_K3},  {"WSIEG1",18,'d',GOVERNOR_K4},  {"WSIEG1",19,'d',GOVERNOR_T6},  {"WSIEG1",20,'d',GOVERNOR_K5},  {"WSIEG1",21,'d',GOVERNOR_K6},  {"WSIEG1",22,'d',GOVERNOR_T7},
  {"WSIEG1",23,'d',GOVERNOR_K7},  {"WSIEG1",24,'d',GOVERNOR_K8},  {"WSIEG1",25,'d',GOVERNOR_DB1},  {"WSIEG1",26,'d',GOVERNOR_ERR},  {"WSIEG1",27,'d',GOVERNOR_DB2},  {"WSIEG1",28,'d',GOVERNOR_GV1},
  {"WSIEG1",29,'d',GOVERNOR_PGV1},  {"WSIEG1",30,'d',GOVERNOR_GV2},  {"WSIEG1",31,'d',GOVERNOR_PGV2},  {"WSIEG1",32,'d',GOVERNOR_GV3},  {"WSIEG1",33,'d',GOVERNOR_PGV3},  {"WSIEG1",34,'d',GOVERNOR_GV4},
  {"WSIEG1",35,'d',GOVERNOR_PGV4},  {"WSIEG1",36,'d',GOVERNOR_GV5},  {"WSIEG1",37,'d',GOVERNOR_PGV5},  {"WSIEG1",38,'i',GOVERNOR_IBLOCK},  {"WTARA1",3,'d',WIND_AD_KA},  {"WTARA1",4,'d',WIND_AD_THETA},
  {"WTDTA1",3,'d',WIND_DT_H},  {"WTDTA1",4,'d',WIND_DT_DAMP},  {"WTDTA1",5,'d',WIND_DT_HFRAC},  {"WTDTA1",6,'d',WIND_DT_FREQ1},  {"WTDTA1",7,'d',WIND_DT_DSHAFT},  {"WTPTA1",3,'d',WIND_PC_KIW},
  {"WTPTA1",4,'d',WIND_PC_KPW},  {"WTPTA1",5,'d',WIND_PC_KIC},  {"WTPTA1",6,'d',WIND_PC_KPC},  {"WTPTA1",7,'d',WIND_PC_KCC},  {"WTPTA1",8,'d',WIND_PC_TP},  {"WTPTA1",9,'d',WIND_PC_THETAMAX},
  {"WTPTA1",10,'d',WIND_PC_THETAMIN},  {"WTPTA1",11,'d',WIND_PC_RTHETAMAX},  {"WTPTA1",12,'d',WIND_PC_RTHETAMIN},  {"WTTQA1",3,'i',WIND_TC_TFLAG},  {"WTTQA1",4,'d',WIND_TC_KPP},  {"WTTQA1",5,'d',WIND_TC_KIP},
  {"WTTQA1",6,'d',WIND_TC_TP},  {"WTTQA1",7,'d',WIND_TC_TWREF},  {"WTTQA1",8,'d',WIND_TC_TEMAX},  {"WTTQA1",9,'d',WIND_TC_TEMIN},  {"WTTQA1",10,'d',WIND_TC_P1},  {"WTTQA1",11,'d',WIND_TC_SPD1},
  {"WTTQA1",12,'d',WIND_TC_P2},  {"WTTQA1",13,'d',WIND_TC_SPD2},  {"WTTQA1",14,'d',WIND_TC_P3},  {"WTTQA1",15,'d',WIND_TC_SPD3},  {"WTTQA1",16,'d',WIND_TC_P4},  {"WTTQA1",17,'d',WIND_TC_SPD4},
  {"WTTQA1",18,'d',WIND_TC_TRATE},
};
