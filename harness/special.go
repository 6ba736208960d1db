package main

// specials: private keys whose public keys have leading zero bytes in x or y
// (xN / yN: N leading zero bytes).
var specials = map[string][]string{
	"secp256k1": {
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb200fddb", // y1
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb200fe58", // x1
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb200fe8e", // x1
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb200fea7", // x1
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb200fedc", // y1
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb200ff79", // y1
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb200fff2", // y1
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb2010283", // x1
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb2013a8f", // xy
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb201996b", // x2
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb201c021", // x2
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb201e2d9", // y2
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb201ef6b", // xy
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb20228f0", // y2
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb2027719", // xy
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb202c92e", // xy
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb203ddf6", // y2
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb2058aed", // x2
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb2064dd2", // x2
		"c0b77180792473271889ca504c3f50d1484ce25d063cb2338ce63feb2066c16", // y2
	},
	"secp256r1": {
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c05de7e", // y1
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c05dee4", // y1
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c05def5", // y1
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c05df15", // x1
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c05df1a", // y1
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c05df30", // x1
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c05dfc0", // x1
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c05e199", // x1
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c05f608", // y2
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c069806", // xy
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c06a95c", // xy
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c078798", // y2
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c07a507", // y2
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c093722", // y2
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c0a825d", // xy
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c0a8600", // xy
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c0bc83d", // x2
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c0c18c1", // x2
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c0ca2e6", // x2
		"af796487554ac725d79377abdc31fb2c41b99c75840ecd8264129a8c104ac4", // x2
	},
	"sm2": {
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f5199f7", // y1
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f519a10", // y1
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f519a43", // x1
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f519a55", // x1
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f519a6f", // x1
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f519a83", // x1
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f519b86", // y1
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f519b88", // y1
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f522ed9", // y2
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f5233e1", // y2
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f52cbe0", // x2
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f538629", // x2
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f53b9fd", // y2
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f5400c3", // xy
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f541355", // x2
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f541c24", // y2
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f55500e", // xy
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f556904", // xy
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f568772", // x2
		"18dcfd5b4caf09cdf67d151033e324562dfdf29363dec7ca3c593ab76f569ff0", // xy
	},
	"pasta": {
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fdcf426", // y1
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fdcf429", // x1
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fdcf446", // x1
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fdcf4a6", // xy
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fdcf4ab", // y1
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fdcf4cb", // x1
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fdcf4d1", // y1
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fdcf4db", // x1
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fdcf524", // y1
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fdcf642", // xy
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fdcfd05", // y2
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fdd15d4", // xy
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fdd1cf7", // xy
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fdd3b0c", // x2
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fdd83dd", // y2
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fdd8d3c", // x2
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fdd9c86", // y2
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fddfdca", // x2
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fde068a", // x2
		"1b2eeaf2252c3cfbc235ab7b90bbc3496ddec23d841a0d3e48188bb39fde17d9", // y2
	},
}
