package h

import (
	"sort"
	"strings"

	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/zzverif/sym"
)

// C24Known: every pair of the table as first published, by quote currency.
//
//verify C24 unwind=4000
func C24Known() {
	known := knownPairs()
	var quotes []string
	for quote := range known {
		quotes = append(quotes, quote)
	}
	sort.Strings(quotes)
	quote := quotes[sym.Choose("quote", len(quotes))]
	for _, base := range known[quote] {
		p, ok := market.PairMappings[base+quote]
		sym.Assert(ok, "known-pair-listed")
		sym.Assert(sym.And(p.Base.Symbol == base, p.Quote.Symbol == quote), "known-pair-of-its-assets")
	}
}

func knownPairs() map[string][]string {
	return map[string][]string{
		"AUD": strings.Fields(`
			ADA AVAX AXS BNB BTC CAKE DOGE DOT EOS ETH FTM GALA KSM LINK LUNA MATIC NU RUNE SAND SHIB SOL SXP TRX UNI
			XRP`),
		"BIDR": strings.Fields(`
			ADA ALGO ALICE ATOM AVAX AXS BNB BTC BUSD DOGE DOT ETH FIS FTM LUNA MANA MATIC ONE REEF SAND SLP SOL SRM SXP
			TKO USDT XRP ZIL`),
		"BKRW": strings.Fields(`
			AAVE ADA BNB BTC BUSD DOT ETH LEND LINK USDT XRP`),
		"BNB": strings.Fields(`
			AAVE ADA ADX AE AGI AGLD AION ALGO ALICE ALPACA ALPHA AMB AMP ANKR ANT API3 APPC AR ARDR ARPA ATA ATOM AVA
			AVAX AXS BAKE BAL BAND BAT BCC BCH BCN BCPT BEAM BEL BETA BIFI BLZ BNX BOND BRD BTS BTT BURGER BZRX C98 CAKE
			CELR CHESS CHR CHZ CITY CLV CMT CND COCOS COMP COS COTI CREAM CRV CTK CTSI CTXC CVC DAI DAR DASH DCR DIA DLT
			DOGE DOT DREP DUSK DYDX EGLD ENJ ENS EOS ERD ERN ETC FARM FET FIDA FIL FIO FLM FLOW FTM FTT GALA GLMR GNO
			GNT GO GTC GTO GXS HARD HBAR HIGH HIVE HOT ICP ICX IDEX ILV INJ IOTA IQ IRIS JASMY JST KAVA KEEP KLAY KP3R
			KSM LINK LOKA LOOM LPT LRC LSK LTC LTO LUNA MANA MASK MATIC MBL MBOX MC MCO MDT MDX MFT MINA MITH MKR MLN
			MOVR NANO NAS NAV NCASH NEAR NEBL NEO NKN NU NULS NXS OCEAN OGN OMG ONE ONG ONT OOKI OST PAX PAXG PEOPLE
			PERL PHB PHX PIVX PLA POA POLS POLY POWR PROM QI QLC QNT QSP QTUM QUICK RAD RARE RAY RCN RDN REN REP RGT RLC
			ROSE RPX RSR RUNE SAND SKY SLP SNX SOL SPARTA SPELL SRM STEEM STORM STPT STRAT STX SUSHI SWRV SXP SYS TCT
			TFUEL THETA TLM TOMO TORN TRB TRIBE TRIG TROY TRX TUSD UNFI UNI USDC VEN VET VIA VITE VOXEL VTHO WABI WAN
			WAVES WAXP WIN WING WNXM WOO WRX WTC XEM XLM XMR XRP XTZ XVS XZC YFI YFII YGG YOYO ZEC ZEN ZIL ZRX`),
		"BRL": strings.Fields(`
			AAVE ADA ATOM AVAX AXS BNB BTC BTT BUSD C98 CAKE CHZ DOGE DOT ENJ ETC ETH FIS FTM GALA HOT LINK LTC LUNA
			MANA MATIC SAND SANTOS SHIB SOL USDT WIN XRP`),
		"BTC": strings.Fields(`
			1INCH AAVE ACA ACH ACM ADA ADX AE AERGO AGI AGIX AGLD AION AKRO ALCX ALGO ALICE ALPACA ALPHA ALPINE AMB AMP
			ANC ANKR ANT ANY API3 APPC AR ARDR ARK ARN ARPA ASR AST ATA ATM ATOM AUCTION AUDIO AUTO AVA AVAX AXS BADGER
			BAKE BAL BAND BAR BAT BCC BCD BCHABC BCH BCHSV BCN BCPT BEAM BEL BETA BICO BLZ BNB BNT BNX BOND BOT BQX BRD
			BTCB BTCST BTG BTS BTT BZRX C98 CAKE CDT CELO CELR CFX CHAT CHESS CHR CHZ CITY CKB CLOAK CLV CMT CND COCOS
			COMP COS COTI CRV CTK CTSI CTXC CVC CVX DAI DAR DASH DATA DCR DEGO DENT DGB DGD DIA DLT DNT DOCK DODO DOGE
			DOT DREP DUSK DYDX EASY EDO EGLD ELF ENG ENJ ENS EOS EPS ERD ETC ETH EVX EZ FARM FET FIDA FIL FIO FIRO FIS
			FLM FLOW FLUX FOR FORTH FRONT FTM FTT FUEL FUN FXS GALA GAS GLM GLMR GNO GNT GO GRS GRT GTC GTO GVT GXS HARD
			HBAR HC HIGH HIVE HNT HOT HSR ICN ICP ICX IDEX ILV IMX INJ INS IOST IOTA IOTX IRIS JASMY JOE JST JUV KAVA
			KEEP KEY KLAY KMD KNC KSM LAZIO LEND LINA LINK LIT LOKA LOOM LPT LRC LSK LTC LTO LUNA LUN MANA MATIC MBL
			MBOX MC MCO MDA MDT MDX MFT MINA MIR MITH MKR MLN MOD MOVR MTH MTL NANO NAS NAV NBS NCASH NEAR NEBL NEO NKN
			NMR NPXS NU NULS NXS OAX OCEAN OG OGN OM OMG ONE ONG ONT ORN OST OXT PAX PAXG PEOPLE PERL PERP PHA PHB PHX
			PIVX PLA PNT POA POE POLS POLY POND PORTO POWR PPT PROM PSG PYR QI QKC QLC QNT QSP QTUM QUICK RAD RAMP RARE
			RCN RDN REEF REN RENBTC REP REQ RGT RIF RLC RNDR ROSE RPX RSR RUNE RVN SALT SAND SANTOS SC SCRT SFP SKL SKY
			SNGLS SNM SNT SNX SOL SPELL SRM SSV STEEM STMX STORJ STORM STPT STRAT STRAX STX SUB SUN SUPER SUSD SUSHI SXP
			SYS TCT TFUEL THETA TKO TLM TNB TNT TOMO TORN TRB TRIBE TRIG TROY TRU TRX TUSD TVK TWT UMA UNFI UNI UST UTK
			VEN VET VGX VIA VIB VIBE VIDT VITE VOXEL WABI WAN WAVES WAXP WBTC WIN WING WINGS WNXM WOO WPR WRX WTC XEM
			XLM XMR XNO XRP XTZ XVG XVS XZC YFI YFII YGG YOYO ZEC ZEN ZIL ZRX`),
		"BUSD": strings.Fields(`
			1INCH AAVE ACA ACH ACM ADA ADX AERGO AGLD AION ALCX ALGO ALICE ALPACA ALPHA AMP ANC ANKR ANT ANY API3 AR
			ARPA ASTR ATA ATM ATOM AUCTION AUD AUDIO AUTO AVA AVAX AXS BADGER BAKE BAL BAND BAR BAT BCHABC BCHA BCH BEAR
			BEL BETA BICO BIFI BKRW BLZ BNBBEAR BNBBULL BNB BNT BNX BOND BOT BTC BTCST BTG BTS BTT BULL BURGER BZRX C98
			CAKE CELO CELR CFX CHESS CHR CHZ CITY CKB CLV COCOS COMP COS COTI COVER CREAM CRV CTK CTSI CTXC CVP CVX DAI
			DAR DASH DATA DCR DEGO DENT DEXE DF DGB DIA DNT DOCK DODO DOGE DOT DUSK DYDX EGLD ELF ENJ ENS EOSBEAR
			EOSBULL EOS EPS ERD ERN ETC ETHBEAR ETHBULL ETH EUR FARM FET FIDA FIL FIO FIS FLM FLOW FLUX FOR FORTH FRONT
			FTM FTT FXS GALA GBP GHST GLMR GNO GRT GTC HARD HBAR HEGIC HIGH HIVE HNT HOT ICP ICX IDEX ILV IMX INJ IOST
			IOTA IOTX IQ IRIS JASMY JOE JST JUV KAVA KEEP KLAY KMD KNC KP3R KSM LAZIO LEND LINA LINK LIT LOKA LPT LRC
			LSK LTC LTO LUNA MANA MASK MATIC MBOX MC MDT MDX MINA MIR MKR MLN MOVR MTL NANO NEAR NEO NMR NU NULS OCEAN
			OGN OM OMG ONE ONT OOKI ORN OXT PAX PAXG PEOPLE PERP PHA PLA POLS POLY POND POWR PROM PSG PYR QI QNT QTUM
			QUICK RAD RAMP RARE RAY REEF REN REP REQ RGT RLC RNDR ROSE RSR RUNE RVN SAND SC SCRT SFP SHIB SKL SLP SNX
			SOL SPELL SRM STMX STORJ STPT STRAT STRAX STX SUN SUPER SUSHI SWRV SXP SYS T TFUEL THETA TKO TLM TOMO TORN
			TRB TRIBE TROY TRU TRX TUSD TVK TWT UFT UMA UNFI UNI USDC USDP UST UTK VET VIDT VOXEL VTHO WAVES WAXP WIN
			WING WNXM WOO WRX XEC XEM XLM XMR XNO XRPBEAR XRPBULL XRP XTZ XVG XVS YFI YFII YGG ZEC ZEN ZIL ZRX`),
		"BVND": strings.Fields(`
			BUSD USDT`),
		"DAI": strings.Fields(`
			BNB BTC BUSD ETH USDT`),
		"DOGE": strings.Fields(`
			SHIB`),
		"DOT": strings.Fields(`
			BDOT`),
		"ETH": strings.Fields(`
			AAVE ADA ADX AE AGI AION AMB APPC ARDR ARK ARN AST ATOM AVAX AXS BAT BCC BCD BCN BCPT BETA BETH BLZ BNB BNT
			BQX BRD BTG BTS CDT CELR CHAT CHR CLOAK CMT CND COVER CRV CVC CVP DASH DATA DENT DEXE DF DGD DLT DNT DOCK
			DOT DYDX EASY EDO EGLD ELF ENG ENJ EOS ETC EVX EZ FIRO FRONT FTM FUEL FUN GALA GHST GLM GNT GRS GRT GTO GVT
			GXS HC HEGIC HOT HSR ICN ICP ICX INS IOST IOTA IOTX KAVA KEY KMD KNC LEND LINK LOOM LRC LSK LTC LUNA LUN
			MANA MATIC MCO MDA MFT MOD MTH MTL NANO NAS NAV NCASH NEAR NEO NPXS NULS NXS OAX OMG ONE ONT OST PAX PHX POA
			POE POWR PPT PROS PUNDIX QKC QLC QSP QTUM RCN RDN RENBTC REQ RLC ROSE RPX SALT SAND SC SCRT SKY SLP SNGLS
			SNM SNT SOL SSV STEEM STMX STORJ STORM STRAT STRAX SUB SUSD SYS THETA TNB TNT TRIG TRX TUSD UFT UNI VEN VET
			VGX VIA VIBE VIB VOXEL WABI WAN WAVES WBTC WINGS WPR WTC XEM XLM XMR XNO XRP XTZ XVG XZC YOYO ZEC ZEN ZIL
			ZRX`),
		"EUR": strings.Fields(`
			ADA ALPINE AVAX BCH BNB BTC BTT CHZ DOGE DOT EGLD ENJ EOS ETC ETH GRT HOT ICP LAZIO LINK LTC LUNA MATIC
			PORTO RUNE SHIB SOL SXP THETA TRX UNI VET WIN WRX XLM XRP YFI`),
		"GBP": strings.Fields(`
			ADA BNB BTC CAKE CHZ DOGE DOT ENJ ETC ETH LINK LTC MATIC RUNE SOL SXP VET XRP`),
		"GYEN": strings.Fields(`
			BTC USDT`),
		"IDRT": strings.Fields(`
			BNB BTC BUSD USDT`),
		"NGN": strings.Fields(`
			BNB BTC BUSD DOT ETH LINK LTC TRX USDT XRP`),
		"PAX": strings.Fields(`
			ADA ALGO ANKR ATOM BAT BCHABC BCH BCHSV BCPT BNB BTC BTT DOGE DUSK EOS ERD ETC ETH FTM GTO LINK LTC NEO ONE
			ONT PHB TFUEL TRX USDC USDS WAVES XLM XRP ZEC`),
		"RUB": strings.Fields(`
			ADA ALGO ARPA BNB BTC BUSD DOGE DOT ETH FTM ICP LTC MATIC NEAR NEO NU SHIB SOL TRU USDT WAVES XRP`),
		"TRX": strings.Fields(`
			BTT WIN`),
		"TRY": strings.Fields(`
			ADA ALICE ALPINE API3 ARPA ATOM AVAX AXS BEL BNB BTC BTTC BTT BUSD CHZ COCOS COS DAR DENT DOGE DOT ENJ EOS
			ETH FIS FTM GALA GRT HOT INJ LAZIO LINK LRC LUNA MANA MATIC MBOX MINA NEAR NEO ONE ONT PORTO REEF ROSE RVN
			SAND SANTOS SHIB SLP SOL SPELL SXP TLM TRX USDT VET XLM XRP XTZ`),
		"TUSD": strings.Fields(`
			ADA ALGO ANKR ATOM BAT BCHABC BCHSV BCH BCPT BNB BTC BTT EOS ETC ETH FTM GTO LINK LTC NEO ONE PAX PHB TFUEL
			TRX TUSDB USDC USDS WAVES XLM XRP ZEC`),
		"UAH": strings.Fields(`
			BNB BTC BUSD ETH LTC SHIB USDT`),
		"USDC": strings.Fields(`
			ADA ALGO ANKR ATOM AUD BAT BCHABC BCHSV BCH BCPT BGBP BNB BTC BTTC BTT DOGE DUSK EOS ERD ETC ETH FTM GTO
			LINK LTC NEO NPXS ONE ONT PERL PHB SOL TFUEL TOMO TRX USDS WAVES WIN XLM XRP ZEC`),
		"USDP": strings.Fields(`
			BNB BTC ETH`),
		"USDS": strings.Fields(`
			BNB BTC USDSB`),
		"USDT": strings.Fields(`
			1INCHDOWN 1INCHUP 1INCH AAVEDOWN AAVEUP AAVE ACA ACH ACM ADADOWN ADAUP ADA ADX AGLD AION AKRO ALCX ALGO
			ALICE ALPACA ALPHA ALPINE AMP ANC ANKR ANT ANY API3 ARDR ARPA AR ASR ASTR ATA ATM ATOM AUCTION AUDIO AUD
			AUTO AVA AVAX AXS BADGER BAKE BAL BAND BAR BAT BCC BCHABC BCHDOWN BCHSV BCHUP BCH BEAM BEAR BEL BETA BICO
			BKRW BLZ BNBBEAR BNBBULL BNBDOWN BNBUP BNB BNT BNX BOND BTCDOWN BTCST BTCUP BTC BTG BTS BTTC BTT BULL BURGER
			BUSD BZRX C98 CAKE CELO CELR CFX CHESS CHR CHZ CITY CKB CLV COCOS COMP COS COTI CRV CTK CTSI CTXC CVC CVP
			CVX DAI DAR DASH DATA DCR DEGO DENT DEXE DF DGB DIA DNT DOCK DODO DOGE DOTDOWN DOTUP DOT DREP DUSK DYDX EGLD
			ELF ENJ ENS EOSBEAR EOSBULL EOSDOWN EOSUP EOS EPS ERD ERN ETC ETHBEAR ETHBULL ETHDOWN ETHUP ETH EUR FARM FET
			FIDA FILDOWN FILUP FIL FIO FIRO FIS FLM FLOW FLUX FORTH FOR FRONT FTM FTT FUN FXS GALA GBP GHST GLMR GNO GRT
			GTC GTO GXS HARD HBAR HC HIGH HIVE HNT HOT ICP ICX IDEX ILV IMX INJ IOST IOTA IOTX IRIS JASMY JOE JST JUV
			KAVA KEEP KEY KLAY KMD KNC KP3R KSM LAZIO LEND LINA LINKDOWN LINKUP LINK LIT LOKA LPT LRC LSK LTCDOWN LTCUP
			LTC LTO LUNA MANA MASK MATIC MBL MBOX MCO MC MDT MDX MFT MINA MIR MITH MKR MLN MOVR MTL NANO NBS NEAR NEO
			NKN NMR NPXS NULS NU OCEAN OGN OG OMG OM ONE ONG ONT OOKI ORN OXT PAXG PAX PEOPLE PERL PERP PHA PLA PNT POLS
			POLY POND PORTO POWR PSG PUNDIX PYR QI QNT QTUM QUICK RAD RAMP RARE RAY REEF REN REP REQ RGT RIF RLC RNDR
			ROSE RSR RUNE RVN SAND SANTOS SCRT SC SFP SHIB SKL SLP SNX SOL SPELL SRM STMX STORJ STORM STPT STRAT STRAX
			STX SUN SUPER SUSD SUSHIDOWN SUSHIUP SUSHI SXPDOWN SXPUP SXP SYS TCT TFUEL THETA TKO TLM TOMO TORN TRB TRIBE
			TROY TRU TRXDOWN TRXUP TRX T TUSD TVK TWT UMA UNFI UNIDOWN UNIUP UNI USDC USDP USDSB USDS UST UTK VEN VET
			VGX VIDT VITE VOXEL VTHO WAN WAVES WAXP WING WIN WNXM WOO WRX WTC XEC XEM XLMDOWN XLMUP XLM XMR XNO XRPBEAR
			XRPBULL XRPDOWN XRPUP XRP XTZDOWN XTZUP XTZ XVG XVS XZC YFIDOWN YFII YFIUP YFI YGG ZEC ZEN ZIL ZRX`),
		"UST": strings.Fields(`
			BNB ETH LUNA`),
		"VAI": strings.Fields(`
			BTC BUSD`),
		"XRP": strings.Fields(`
			TRX XZC`),
		"ZAR": strings.Fields(`
			BNB BTC BUSD ETH USDT`),
	}
}
