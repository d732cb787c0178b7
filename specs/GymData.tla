--------------------------------- MODULE GymData ---------------------------------
(* The measurements of the NIST nonlinear regression data sets (and the Luca one), as *)
(* published; MCGym checks the NIST ones against their certified models and residuals. *)
chwirut1_points == <<
    "0.5", "0.625", "0.75", "0.875", "1.0", "1.25", "1.75", "2.25", "1.75", "2.25", "2.75", "3.25", "3.75", 
    "4.25", "4.75", "5.25", "5.75", "0.5", "0.625", "0.75", "0.875", "1.0", "1.25", "1.75", "2.25", "1.75", 
    "2.25", "2.75", "3.25", "3.75", "4.25", "4.75", "5.25", "5.75", "0.5", "0.625", "0.75", "0.875", "1.0", 
    "1.25", "1.75", "2.25", "1.75", "2.25", "2.75", "3.25", "3.75", "4.25", "4.75", "5.25", "5.75", "0.5", 
    "0.625", "0.75", "0.875", "1.0", "1.25", "1.75", "2.25", "1.75", "2.25", "2.75", "3.25", "3.75", "4.25", 
    "4.75", "5.25", "5.75", "0.5", "0.75", "1.5", "3.0", "3.0", "3.0", "6.0", "0.5", "0.75", "1.5", "3.0", "3.0", 
    "3.0", "6.0", "0.5", "0.75", "1.5", "3.0", "3.0", "3.0", "6.0", "0.5", "0.75", "1.5", "3.0", "6.0", "3.0", 
    "3.0", "6.0", "0.5", "0.75", "1.0", "1.5", "2.0", "2.0", "2.5", "3.0", "4.0", "5.0", "6.0", "0.5", "0.75", 
    "1.0", "1.5", "2.0", "2.0", "2.5", "3.0", "4.0", "5.0", "6.0", "0.5", "0.75", "1.0", "1.5", "2.0", "2.0", 
    "2.5", "3.0", "4.0", "5.0", "6.0", "0.5", "0.625", "0.75", "0.875", "1.0", "1.25", "2.25", "2.25", "2.75", 
    "3.25", "3.75", "4.25", "4.75", "5.25", "5.75", "3.0", "3.0", "3.0", "3.0", "3.0", "3.0", "0.5", "0.75", 
    "1.0", "1.5", "2.0", "2.5", "2.0", "2.5", "3.0", "4.0", "5.0", "6.0", "0.5", "0.75", "1.0", "1.5", "2.0", 
    "2.5", "2.0", "2.5", "3.0", "4.0", "5.0", "6.0", "0.5", "0.75", "1.0", "1.5", "2.0", "2.5", "2.0", "2.5", 
    "3.0", "4.0", "5.0", "6.0", "3.0", "0.5", "0.75", "1.5", "3.0", "6.0", "3.0", "6.0", "3.0", "3.0", "3.0", 
    "1.75", "1.75", "0.5", "0.75", "1.75", "1.75", "2.75", "3.75", "1.75", "1.75", "0.5", "0.75", "2.75", "3.75", 
    "1.75", "1.75" >>
chwirut1_labels == <<
    "92.9", "78.7", "64.2", "64.9", "57.1", "43.3", "31.1", "23.6", "31.05", "23.775", "17.7375", "13.8", 
    "11.5875", "9.4125", "7.725", "7.35", "8.025", "90.6", "76.9", "71.6", "63.6", "54.0", "39.2", "29.3", 
    "21.4", "29.175", "22.125", "17.5125", "14.25", "9.45", "9.15", "7.9125", "8.475", "6.1125", "80.0", "79.0", 
    "63.8", "57.2", "53.2", "42.5", "26.8", "20.4", "26.85", "21.0", "16.4625", "12.525", "10.5375", "8.5875", 
    "7.125", "6.1125", "5.9625", "74.1", "67.3", "60.8", "55.5", "50.3", "41.0", "29.4", "20.4", "29.3625", 
    "21.15", "16.7625", "13.2", "10.875", "8.175", "7.35", "5.9625", "5.625", "81.5", "62.4", "32.5", "12.41", 
    "13.12", "15.56", "5.63", "78.0", "59.9", "33.2", "13.84", "12.75", "14.62", "3.94", "76.8", "61.0", "32.9", 
    "13.87", "11.81", "13.31", "5.44", "78.0", "63.5", "33.8", "12.56", "5.63", "12.75", "13.12", "5.44", "76.8", 
    "60.0", "47.8", "32.0", "22.2", "22.57", "18.82", "13.95", "11.25", "9.0", "6.67", "75.8", "62.0", "48.8", 
    "35.2", "20.0", "20.32", "19.31", "12.75", "10.42", "7.31", "7.42", "70.5", "59.5", "48.5", "35.8", "21.0", 
    "21.67", "21.0", "15.64", "8.17", "8.55", "10.12", "78.0", "66.0", "62.0", "58.0", "47.7", "37.8", "20.2", 
    "21.07", "13.87", "9.67", "7.76", "5.44", "4.87", "4.01", "3.75", "24.19", "25.76", "18.07", "11.81", 
    "12.07", "16.12", "70.8", "54.7", "48.0", "39.8", "29.8", "23.7", "29.62", "23.81", "17.7", "11.55", "12.07", 
    "8.74", "80.7", "61.3", "47.5", "29.0", "24.0", "17.7", "24.56", "18.67", "16.24", "8.74", "7.87", "8.51", 
    "66.7", "59.2", "40.8", "30.7", "25.7", "16.3", "25.99", "16.95", "13.35", "8.62", "7.2", "6.64", "13.69", 
    "81.0", "64.5", "35.5", "13.31", "4.87", "12.94", "5.06", "15.19", "14.62", "15.64", "25.5", "25.95", "81.7", 
    "61.6", "29.8", "29.81", "17.17", "10.39", "28.4", "28.69", "81.3", "60.9", "16.65", "10.05", "28.9", 
    "28.95" >>
chwirut2_points == <<
    "0.5", "1.0", "1.75", "3.75", "5.75", "0.875", "2.25", "3.25", "5.25", "0.75", "1.75", "2.75", "4.75", 
    "0.625", "1.25", "2.25", "4.25", "0.5", "3.0", "0.75", "3.0", "1.5", "6.0", "3.0", "6.0", "1.5", "3.0", 
    "0.5", "2.0", "4.0", "0.75", "2.0", "5.0", "0.75", "2.25", "3.75", "5.75", "3.0", "0.75", "2.5", "4.0", 
    "0.75", "2.5", "4.0", "0.75", "2.5", "4.0", "0.5", "6.0", "3.0", "0.5", "2.75", "0.5", "1.75" >>
chwirut2_labels == <<
    "92.9", "57.1", "31.05", "11.5875", "8.025", "63.6", "21.4", "14.25", "8.475", "63.8", "26.8", "16.4625", 
    "7.125", "67.3", "41.0", "21.15", "8.175", "81.5", "13.12", "59.9", "14.62", "32.9", "5.44", "12.56", "5.44", 
    "32.0", "13.95", "75.8", "20.0", "10.42", "59.5", "21.67", "8.55", "62.0", "20.2", "7.76", "3.75", "11.81", 
    "54.7", "23.7", "11.55", "61.3", "17.7", "8.74", "59.2", "16.3", "8.62", "81.0", "4.87", "14.62", "81.7", 
    "17.17", "81.3", "28.9" >>
daniel_wood_points == <<
    "1.309", "1.471", "1.49", "1.565", "1.611", "1.68" >>
daniel_wood_labels == <<
    "2.138", "3.421", "3.597", "4.34", "4.882", "5.66" >>
gauss1_points == <<
    "1.0", "2.0", "3.0", "4.0", "5.0", "6.0", "7.0", "8.0", "9.0", "10.0", "11.0", "12.0", "13.0", "14.0", 
    "15.0", "16.0", "17.0", "18.0", "19.0", "20.0", "21.0", "22.0", "23.0", "24.0", "25.0", "26.0", "27.0", 
    "28.0", "29.0", "30.0", "31.0", "32.0", "33.0", "34.0", "35.0", "36.0", "37.0", "38.0", "39.0", "40.0", 
    "41.0", "42.0", "43.0", "44.0", "45.0", "46.0", "47.0", "48.0", "49.0", "50.0", "51.0", "52.0", "53.0", 
    "54.0", "55.0", "56.0", "57.0", "58.0", "59.0", "60.0", "61.0", "62.0", "63.0", "64.0", "65.0", "66.0", 
    "67.0", "68.0", "69.0", "70.0", "71.0", "72.0", "73.0", "74.0", "75.0", "76.0", "77.0", "78.0", "79.0", 
    "80.0", "81.0", "82.0", "83.0", "84.0", "85.0", "86.0", "87.0", "88.0", "89.0", "90.0", "91.0", "92.0", 
    "93.0", "94.0", "95.0", "96.0", "97.0", "98.0", "99.0", "100.0", "101.0", "102.0", "103.0", "104.0", "105.0", 
    "106.0", "107.0", "108.0", "109.0", "110.0", "111.0", "112.0", "113.0", "114.0", "115.0", "116.0", "117.0", 
    "118.0", "119.0", "120.0", "121.0", "122.0", "123.0", "124.0", "125.0", "126.0", "127.0", "128.0", "129.0", 
    "130.0", "131.0", "132.0", "133.0", "134.0", "135.0", "136.0", "137.0", "138.0", "139.0", "140.0", "141.0", 
    "142.0", "143.0", "144.0", "145.0", "146.0", "147.0", "148.0", "149.0", "150.0", "151.0", "152.0", "153.0", 
    "154.0", "155.0", "156.0", "157.0", "158.0", "159.0", "160.0", "161.0", "162.0", "163.0", "164.0", "165.0", 
    "166.0", "167.0", "168.0", "169.0", "170.0", "171.0", "172.0", "173.0", "174.0", "175.0", "176.0", "177.0", 
    "178.0", "179.0", "180.0", "181.0", "182.0", "183.0", "184.0", "185.0", "186.0", "187.0", "188.0", "189.0", 
    "190.0", "191.0", "192.0", "193.0", "194.0", "195.0", "196.0", "197.0", "198.0", "199.0", "200.0", "201.0", 
    "202.0", "203.0", "204.0", "205.0", "206.0", "207.0", "208.0", "209.0", "210.0", "211.0", "212.0", "213.0", 
    "214.0", "215.0", "216.0", "217.0", "218.0", "219.0", "220.0", "221.0", "222.0", "223.0", "224.0", "225.0", 
    "226.0", "227.0", "228.0", "229.0", "230.0", "231.0", "232.0", "233.0", "234.0", "235.0", "236.0", "237.0", 
    "238.0", "239.0", "240.0", "241.0", "242.0", "243.0", "244.0", "245.0", "246.0", "247.0", "248.0", "249.0", 
    "250.0" >>
gauss1_labels == <<
    "97.62227", "97.80724", "96.62247", "92.59022", "91.23869", "95.32704", "90.3504", "89.46235", "91.7252", 
    "89.86916", "86.88076", "85.9436", "87.60686", "86.25839", "80.74976", "83.03551", "88.25837", "82.01316", 
    "82.74098", "83.30034", "81.2785", "81.85506", "80.75195", "80.09573", "81.07633", "78.81542", "78.38596", 
    "79.93386", "79.48474", "79.95942", "76.10691", "78.3983", "81.4306", "82.48867", "81.65462", "80.84323", 
    "88.68663", "84.74438", "86.83934", "85.97739", "91.28509", "97.22411", "93.51733", "94.10159", "101.9176", 
    "98.43134", "110.4214", "107.6628", "111.7288", "116.5115", "120.7609", "123.9553", "124.2437", "130.7996", 
    "133.296", "130.7788", "132.0565", "138.6584", "142.9252", "142.7215", "144.1249", "147.4377", "148.2647", 
    "152.0519", "147.3863", "149.2074", "148.9537", "144.5876", "148.1226", "148.0144", "143.8893", "140.9088", 
    "143.4434", "139.3938", "135.9878", "136.3927", "126.7262", "124.4487", "122.8647", "113.8557", "113.7037", 
    "106.8407", "107.0034", "102.4629", "96.09296", "94.57555", "86.98824", "84.90154", "81.18023", "76.40117", 
    "67.092", "72.67155", "68.10848", "67.99088", "63.34094", "60.55253", "56.18687", "53.64482", "53.70307", 
    "48.07893", "42.21258", "45.65181", "41.69728", "41.24946", "39.21349", "37.71696", "36.68395", "37.30393", 
    "37.43277", "37.45012", "32.64648", "31.84347", "31.39951", "26.68912", "32.25323", "27.61008", "33.58649", 
    "28.10714", "30.26428", "28.01648", "29.11021", "23.02099", "25.65091", "28.50295", "25.23701", "26.13828", 
    "33.5326", "29.25195", "27.09847", "26.52999", "25.52401", "26.69218", "24.55269", "27.71763", "25.20297", 
    "25.61483", "25.06893", "27.6393", "24.94851", "25.86806", "22.48183", "26.90045", "25.39919", "17.90614", 
    "23.76039", "25.89689", "27.64231", "22.86101", "26.47003", "23.72888", "27.54334", "30.52683", "28.07261", 
    "34.92815", "28.29194", "34.19161", "35.41207", "37.09336", "40.9833", "39.53923", "47.80123", "47.46305", 
    "51.04166", "54.58065", "57.53001", "61.42089", "62.79032", "68.51455", "70.23053", "74.42776", "76.59911", 
    "81.62053", "83.42208", "79.17451", "88.56985", "85.66525", "86.55502", "90.65907", "84.2729", "85.7222", 
    "83.10702", "82.16884", "80.42568", "78.15692", "79.79691", "77.84378", "74.50327", "71.57289", "65.88031", 
    "65.01385", "60.19582", "59.66726", "52.95478", "53.87792", "44.91274", "41.09909", "41.68018", "34.53379", 
    "34.86419", "33.14787", "29.58864", "27.29462", "21.91439", "19.08159", "24.9029", "19.82341", "16.75551", 
    "18.24558", "17.23549", "16.34934", "13.71285", "14.75676", "13.97169", "12.42867", "14.35519", "7.703309", 
    "10.23441", "11.78315", "13.87768", "4.5357", "10.05928", "8.424824", "10.53312", "9.602255", "7.877514", 
    "6.258121", "8.899865", "7.877754", "12.51191", "10.66205", "6.0354", "6.790655", "8.783535", "4.600288", 
    "8.400915", "7.216561", "10.01741", "7.331278", "6.527863", "2.842001", "10.32507", "4.790995", "8.377101", 
    "6.264445", "2.706213", "8.362329", "8.983658", "3.362571", "1.182746", "4.875359" >>
kirby2_points == <<
    "9.65", "10.74", "11.81", "12.88", "14.06", "15.28", "16.63", "18.19", "19.88", "21.84", "24.0", "26.25", 
    "28.86", "31.85", "35.79", "40.18", "44.74", "49.53", "53.94", "58.29", "62.63", "67.03", "71.25", "75.22", 
    "79.33", "83.56", "87.75", "91.93", "96.1", "100.28", "104.46", "108.66", "112.71", "116.88", "121.33", 
    "125.79", "125.79", "128.74", "130.27", "133.33", "134.79", "137.93", "139.33", "142.46", "143.9", "146.91", 
    "148.51", "151.41", "153.17", "155.97", "157.76", "160.56", "162.3", "165.21", "166.9", "169.92", "170.32", 
    "171.54", "173.79", "174.57", "176.25", "177.34", "179.19", "181.02", "182.08", "183.88", "185.75", "186.8", 
    "188.63", "190.45", "191.48", "193.35", "195.22", "196.23", "198.05", "199.97", "201.06", "202.83", "204.69", 
    "205.86", "207.58", "209.5", "210.65", "212.33", "215.43", "217.16", "220.21", "221.98", "225.06", "226.79", 
    "229.92", "231.69", "234.77", "236.6", "239.63", "241.5", "244.48", "246.4", "249.35", "251.32", "254.22", 
    "256.24", "259.11", "261.18", "264.02", "266.13", "268.94", "271.09", "273.87", "276.08", "278.83", "281.08", 
    "283.81", "286.11", "288.81", "291.08", "293.75", "295.99", "298.64", "300.84", "302.02", "303.48", "305.65", 
    "308.27", "310.41", "313.01", "315.12", "317.71", "319.79", "322.36", "324.42", "326.98", "329.01", "331.56", 
    "333.56", "336.1", "338.08", "340.6", "342.57", "345.08", "347.02", "349.52", "351.44", "353.93", "355.83", 
    "358.32", "360.2", "362.67", "364.53", "367.0", "371.3" >>
kirby2_labels == <<
    "0.0082", "0.0112", "0.0149", "0.0198", "0.0248", "0.0324", "0.042", "0.0549", "0.0719", "0.0963", "0.1291", 
    "0.171", "0.2314", "0.3227", "0.4809", "0.7084", "1.022", "1.458", "1.952", "2.541", "3.223", "3.999", 
    "4.852", "5.732", "6.727", "7.835", "9.025", "10.267", "11.578", "12.944", "14.377", "15.856", "17.331", 
    "18.885", "20.575", "22.32", "22.303", "23.46", "24.06", "25.272", "25.853", "27.11", "27.658", "28.924", 
    "29.511", "30.71", "31.35", "32.52", "33.23", "34.33", "35.06", "36.17", "36.84", "38.01", "38.67", "39.87", 
    "40.03", "40.5", "41.37", "41.67", "42.31", "42.73", "43.46", "44.14", "44.55", "45.22", "45.92", "46.3", 
    "47.0", "47.68", "48.06", "48.74", "49.41", "49.76", "50.43", "51.11", "51.5", "52.12", "52.76", "53.18", 
    "53.78", "54.46", "54.83", "55.4", "56.43", "57.03", "58.0", "58.61", "59.58", "60.11", "61.1", "61.65", 
    "62.59", "63.12", "64.03", "64.62", "65.49", "66.03", "66.89", "67.42", "68.23", "68.77", "69.59", "70.11", 
    "70.86", "71.43", "72.16", "72.7", "73.4", "73.93", "74.6", "75.16", "75.82", "76.34", "76.98", "77.48", 
    "78.08", "78.6", "79.17", "79.62", "79.88", "80.19", "80.66", "81.22", "81.66", "82.16", "82.59", "83.14", 
    "83.5", "84.0", "84.4", "84.89", "85.26", "85.74", "86.07", "86.54", "86.89", "87.32", "87.65", "88.1", 
    "88.43", "88.83", "89.12", "89.54", "89.85", "90.25", "90.55", "90.93", "91.2", "91.55", "92.2" >>
lanczos2_points == <<
    "0.0", "0.05", "0.1", "0.15", "0.2", "0.25", "0.3", "0.35", "0.4", "0.45", "0.5", "0.55", "0.6", "0.65", 
    "0.7", "0.75", "0.8", "0.85", "0.9", "0.95", "1.0", "1.05", "1.1", "1.15" >>
lanczos2_labels == <<
    "2.5134", "2.04433", "1.6684", "1.36642", "1.12323", "0.92689", "0.767934", "0.638878", "0.533784", 
    "0.447936", "0.377585", "0.319739", "0.272013", "0.232497", "0.199659", "0.17227", "0.149341", "0.13007", 
    "0.113812", "0.100042", "0.0883321", "0.0783354", "0.0697669", "0.0623931" >>
misra1b_points == <<
    "77.6", "114.9", "141.1", "190.8", "239.9", "289.0", "332.8", "378.4", "434.8", "477.3", "536.8", "593.1", 
    "689.1", "760.0" >>
misra1b_labels == <<
    "10.07", "14.73", "17.94", "23.93", "29.61", "35.18", "40.02", "44.82", "50.76", "55.05", "61.01", "66.4", 
    "75.47", "81.78" >>
luca1_points == <<
    "0.0", "60.0", "120.0", "180.0", "240.0", "300.0", "360.0", "420.0", "480.0", "540.0", "600.0", "660.0", 
    "720.0", "780.0", "840.0", "900.0", "960.0", "1020.0", "1080.0", "1140.0", "1200.0", "1260.0", "1320.0", 
    "1380.0", "1440.0", "1500.0", "1560.0", "1620.0", "1680.0", "1740.0", "1800.0", "1860.0", "1920.0", "1980.0", 
    "2040.0", "2100.0", "2160.0", "2220.0", "2340.0", "2400.0", "2460.0", "2520.0", "2580.0", "2640.0", "2700.0", 
    "2760.0", "2820.0", "2880.0", "2940.0", "3000.0", "3060.0", "3120.0", "3180.0", "3240.0", "3300.0", "3360.0", 
    "3420.0", "3480.0", "3540.0", "3600.0", "3660.0", "3720.0", "3780.0", "3840.0", "3900.0", "3960.0", "4020.0", 
    "4080.0", "4140.0", "4200.0", "4260.0", "4320.0", "4380.0", "4440.0", "4500.0", "4560.0", "4620.0", "4680.0", 
    "4740.0", "4800.0", "4860.0", "4980.0", "5040.0", "5100.0", "5160.0", "5220.0", "5280.0", "5340.0", "5400.0", 
    "5460.0", "5520.0", "5580.0", "5640.0", "5700.0", "5760.0", "5820.0", "5880.0", "5940.0", "6000.0", "6060.0", 
    "6180.0", "6240.0", "6300.0", "6360.0", "6420.0", "6480.0", "6540.0", "6600.0", "6660.0", "6720.0", "6780.0", 
    "6840.0", "6900.0", "6960.0", "7020.0", "7080.0", "7140.0", "7200.0", "7260.0", "7320.0", "7380.0", "7440.0", 
    "7500.0", "7560.0", "7620.0", "7680.0", "7740.0", "7800.0", "7860.0", "7920.0", "7980.0", "8040.0", "8100.0", 
    "8160.0", "8220.0", "8280.0", "8340.0", "8400.0", "8520.0", "8580.0", "8640.0", "8700.0", "8760.0", "8820.0", 
    "8880.0", "8940.0", "9000.0", "9060.0", "9120.0", "9180.0", "9240.0", "9300.0", "9360.0", "9420.0", "9480.0", 
    "9540.0", "9600.0", "9660.0", "9720.0", "9780.0", "9840.0", "9900.0", "9960.0", "10020.0", "10080.0", 
    "10140.0", "10200.0", "10260.0", "10320.0", "10380.0", "10440.0", "10500.0", "10560.0", "10620.0", "10680.0", 
    "10740.0", "10800.0", "10860.0", "10920.0", "10980.0", "11040.0", "11100.0", "11160.0", "11220.0", "11280.0", 
    "11340.0", "11400.0", "11460.0", "11520.0", "11580.0", "11640.0", "11700.0", "11760.0", "11820.0", "11880.0", 
    "11940.0", "12000.0", "12060.0", "12120.0", "12180.0", "12240.0", "12300.0", "12360.0", "12420.0", "12480.0", 
    "12540.0", "12600.0", "12660.0", "12720.0", "12780.0", "12840.0", "12900.0", "12960.0", "13020.0", "13080.0", 
    "13140.0", "13200.0", "13260.0", "13320.0", "13380.0", "13440.0", "13500.0", "13560.0", "13620.0", "13680.0", 
    "13740.0", "13800.0", "13860.0", "13920.0", "13980.0", "14040.0", "14100.0", "14160.0", "14220.0", "14340.0", 
    "14400.0", "14460.0", "14520.0", "14580.0", "14700.0", "14760.0", "14820.0", "14880.0", "14940.0", "15000.0", 
    "15060.0", "15120.0", "15180.0", "15240.0", "15300.0", "15360.0", "15420.0", "15480.0", "15540.0", "15600.0", 
    "15660.0", "15720.0", "15780.0", "15840.0", "15900.0", "15960.0", "16020.0", "16080.0", "16140.0", "16200.0", 
    "16260.0", "16320.0", "16380.0", "16440.0", "16500.0", "16560.0", "16620.0", "16680.0", "16740.0", "16800.0", 
    "16860.0", "16920.0", "16980.0", "17040.0", "17100.0", "17160.0", "17220.0", "17280.0", "17340.0", "17400.0", 
    "17460.0", "17520.0", "17580.0", "17640.0", "17700.0", "17760.0", "17820.0", "17880.0", "17940.0", "18000.0", 
    "18060.0", "18120.0", "18180.0", "18240.0", "18300.0", "18360.0", "18420.0", "18480.0", "18540.0", "18600.0", 
    "18660.0", "18720.0", "18780.0", "18840.0", "18900.0", "18960.0", "19020.0", "19080.0", "19140.0", "19200.0", 
    "19260.0", "19320.0", "19380.0", "19440.0", "19500.0", "19560.0", "19620.0", "19680.0", "19740.0", "19800.0", 
    "19860.0", "19920.0", "19980.0", "20040.0", "20100.0", "20160.0", "20220.0", "20280.0", "20340.0", "20400.0", 
    "20460.0", "20520.0", "20580.0", "20640.0", "20700.0", "20760.0", "20820.0", "20880.0", "20940.0", "21000.0", 
    "21060.0", "21120.0", "21180.0", "21240.0", "21300.0", "21360.0", "21420.0", "21480.0", "21540.0", "21600.0", 
    "21660.0", "21720.0", "21780.0", "21840.0", "21900.0", "21960.0", "22020.0", "22080.0", "22140.0", "22200.0", 
    "22260.0", "22320.0", "22380.0", "22440.0", "22500.0", "22560.0", "22620.0", "22680.0", "22740.0", "22800.0", 
    "22860.0", "22920.0", "23040.0", "23100.0", "23160.0", "23220.0", "23280.0", "23340.0", "23400.0", "23460.0", 
    "23520.0", "23580.0", "23640.0", "23700.0", "23760.0", "23820.0", "23880.0", "23940.0", "24000.0", "24060.0", 
    "24120.0", "24180.0", "24240.0", "24300.0", "24360.0", "24420.0", "24480.0", "24540.0", "24600.0", "24660.0", 
    "24720.0", "24780.0", "24840.0", "24900.0", "24960.0", "25020.0", "25080.0", "25140.0", "25200.0", "25260.0", 
    "25320.0", "25380.0", "25440.0", "25500.0", "25560.0", "25620.0", "25680.0", "25740.0", "25800.0", "25860.0", 
    "25920.0", "25980.0", "26040.0", "26100.0", "26160.0", "26220.0", "26280.0", "26340.0", "26400.0", "26460.0", 
    "26520.0", "26580.0", "26640.0", "26700.0", "26760.0", "26820.0", "26880.0", "26940.0", "27000.0", "27060.0", 
    "27120.0", "27180.0", "27240.0", "27300.0", "27360.0", "27420.0", "27480.0", "27540.0", "27600.0", "27660.0", 
    "27720.0", "27780.0", "27840.0", "27900.0", "27960.0", "28020.0", "28080.0", "28140.0", "28200.0", "28260.0", 
    "28320.0", "28380.0", "28440.0", "28500.0", "28560.0", "28620.0", "28680.0", "28740.0", "28800.0", "28860.0", 
    "28920.0", "28980.0", "29040.0", "29100.0", "29160.0", "29220.0", "29280.0", "29340.0", "29400.0", "29460.0", 
    "29520.0", "29580.0", "29640.0", "29700.0", "29760.0", "29820.0", "29880.0", "29940.0", "30000.0", "30060.0", 
    "30120.0", "30180.0", "30240.0", "30300.0", "30360.0", "30420.0", "30480.0", "30540.0", "30600.0", "30660.0", 
    "30720.0", "30780.0", "30840.0", "30900.0", "30960.0", "31020.0", "31080.0", "31140.0", "31200.0", "31260.0", 
    "31320.0", "31380.0", "31440.0", "31500.0", "31560.0", "31620.0", "31680.0", "31740.0", "31800.0", "31860.0", 
    "31920.0", "31980.0", "32040.0", "32100.0", "32160.0", "32220.0", "32280.0", "32340.0", "32400.0", "32460.0", 
    "32520.0", "32580.0", "32640.0", "32700.0", "32760.0", "32820.0", "32880.0", "32940.0", "33000.0", "33060.0", 
    "33120.0", "33180.0", "33240.0", "33300.0", "33360.0", "33420.0", "33480.0", "33540.0", "33600.0", "33660.0", 
    "33720.0", "33780.0", "33840.0", "33900.0", "33960.0", "34020.0", "34080.0", "34140.0", "34200.0", "34260.0", 
    "34320.0", "34380.0", "34440.0", "34500.0", "34560.0", "34620.0", "34680.0", "34740.0", "34800.0", "34860.0", 
    "34920.0", "34980.0", "35040.0", "35100.0", "35160.0", "35220.0", "35280.0", "35340.0", "35400.0", "35460.0", 
    "35520.0", "35580.0", "35640.0", "35700.0", "35760.0", "35820.0", "35880.0", "35940.0", "36000.0", "36060.0", 
    "36120.0", "36180.0", "36240.0", "36300.0", "36360.0", "36420.0", "36480.0", "36540.0", "36600.0", "36660.0", 
    "36720.0", "36780.0", "36840.0", "36900.0", "36960.0", "37020.0", "37080.0", "37140.0", "37200.0", "37260.0", 
    "37320.0", "37380.0", "37440.0", "37500.0", "37560.0", "37620.0", "37680.0", "37740.0", "37800.0", "37860.0", 
    "37920.0", "37980.0", "38040.0", "38100.0", "38160.0", "38220.0" >>
luca1_labels == <<
    "337.1442908", "336.9744037", "336.9824174", "336.5960922", "335.255398", "335.5252764", "334.3072227", 
    "334.9410065", "334.4445171", "332.8497379", "333.9870947", "332.2910747", "334.1350198", "332.0067778", 
    "333.8810337", "331.8969311", "332.7588098", "331.5910934", "330.9132806", "330.5956971", "332.4400475", 
    "332.3796281", "331.814891", "329.9387639", "329.5636731", "330.0219347", "329.7540461", "330.6068489", 
    "329.597415", "329.3769882", "330.0688911", "328.3634273", "328.5975643", "328.434937", "328.2632795", 
    "328.1946805", "326.8960196", "328.6338314", "327.1479591", "326.5556453", "327.9179143", "327.9942847", 
    "328.4017316", "327.2529231", "327.3911318", "326.6970198", "326.6950885", "325.4782815", "324.8187344", 
    "326.9839012", "325.1536111", "326.8089144", "325.8877202", "324.7849329", "325.6072575", "324.9948122", 
    "325.4887436", "326.0431928", "323.6113226", "325.9838914", "324.1924508", "324.5970406", "324.8230764", 
    "324.9237099", "324.2666625", "323.6965632", "321.9786247", "322.8748345", "322.8899082", "323.9822995", 
    "321.1392998", "323.6433758", "323.2831224", "323.0677065", "322.035195", "320.2140103", "322.0256243", 
    "321.7293684", "320.3009872", "319.6279384", "319.4813218", "319.9187445", "319.6932013", "319.1582722", 
    "320.7196917", "319.4144958", "318.8384286", "319.9096955", "318.1323327", "319.0491528", "318.2715763", 
    "319.2434569", "319.3683525", "318.7220745", "317.3729954", "316.1924805", "317.6607081", "317.4401266", 
    "316.8007575", "316.3831204", "315.3087716", "316.4643641", "315.545849", "315.0653973", "315.4820921", 
    "316.0636043", "315.8050276", "317.15843", "315.0013158", "316.3060765", "314.7660777", "316.5689015", 
    "314.9915883", "314.8268058", "313.6818342", "313.9843479", "314.85659", "313.6457786", "313.9740967", 
    "313.055651", "314.9535052", "314.8975508", "314.655686", "313.8751524", "312.7129912", "314.6638683", 
    "313.5441028", "312.707546", "312.5758631", "313.6651482", "312.0994893", "311.4212523", "313.4662091", 
    "314.06175", "313.9324801", "311.2821648", "314.2439145", "313.9891592", "312.6230376", "312.6748777", 
    "311.7325204", "311.9418737", "312.6439556", "313.2380496", "313.1371983", "313.1932226", "312.6721982", 
    "311.6082809", "312.6828219", "311.4888788", "310.3933265", "312.8019786", "311.7547666", "310.553449", 
    "312.2085369", "312.7470519", "310.6600828", "311.9492027", "311.3306919", "310.1125428", "310.6858603", 
    "310.5374625", "309.616072", "311.7214697", "310.7412576", "309.255049", "310.9959456", "309.5496629", 
    "309.8922506", "309.2589913", "309.6225286", "311.4041382", "308.9472363", "309.4356973", "308.6938563", 
    "308.8859748", "311.5421611", "308.8003615", "310.5179815", "310.9961059", "309.5454753", "308.8832005", 
    "309.0879641", "309.1384432", "308.5626005", "310.3581126", "309.722625", "309.5528934", "309.8827313", 
    "308.7161182", "309.6421889", "310.9313043", "310.30758", "308.8335661", "309.2443618", "307.8976394", 
    "308.1901883", "309.0817311", "310.5508054", "308.9074166", "307.7294688", "310.0647507", "308.2555717", 
    "309.0918719", "308.4474127", "308.9598839", "310.5361995", "309.8934223", "309.2699092", "308.8803725", 
    "308.8688793", "307.6696575", "309.4188047", "309.0433909", "309.3836838", "307.4465841", "309.3869415", 
    "308.4820491", "309.6412089", "307.6391334", "310.2361889", "307.692014", "307.6061464", "309.9988997", 
    "309.6635524", "307.2992441", "309.5478944", "309.7384236", "307.6155164", "309.7216317", "307.0322128", 
    "309.5891705", "308.6442173", "308.2093349", "307.0311527", "307.4621258", "308.9132837", "307.6651043", 
    "308.9875313", "306.7033955", "307.7732745", "307.8833902", "307.8650017", "309.1836698", "307.1342834", 
    "308.7995078", "308.7250358", "307.0102584", "307.4185696", "306.7896699", "306.3319703", "307.0610922", 
    "307.4909859", "306.189724", "308.5292718", "306.9459035", "308.0883136", "306.6247203", "308.6184201", 
    "308.6830487", "306.0353728", "308.4789734", "308.097129", "307.4498101", "306.4571618", "306.3348016", 
    "307.449898", "306.8918064", "306.4379689", "308.3057104", "305.8244024", "307.7832466", "305.9537608", 
    "308.4256222", "307.6612404", "305.9978287", "306.1627269", "307.4821939", "307.0098737", "305.9258368", 
    "308.0316925", "308.404896", "306.6772489", "307.1441669", "307.769201", "307.0541718", "306.3905305", 
    "307.5552371", "307.0951414", "307.311043", "308.6336743", "307.0834437", "306.7422114", "306.7223216", 
    "308.2104013", "307.5611921", "306.5807061", "307.7215757", "308.1577335", "307.6429405", "307.8988021", 
    "308.1819402", "308.2631038", "307.4730703", "305.9205743", "308.0726969", "306.2175604", "307.7846751", 
    "305.6169576", "305.2916826", "306.4418186", "307.9873754", "306.3515944", "307.8798629", "306.8339679", 
    "307.6220998", "305.4361687", "306.584915", "306.5069071", "308.011441", "306.3209287", "305.6135625", 
    "306.9757229", "306.7890305", "306.916095", "306.5813547", "306.744411", "306.8335505", "306.5867868", 
    "308.1741714", "306.0897144", "305.4680507", "307.8125832", "307.3571521", "306.0402141", "307.184291", 
    "307.1835549", "307.0372405", "307.0840199", "305.6962037", "305.2478807", "306.3991056", "307.9055191", 
    "305.8134413", "305.8399075", "305.5569301", "306.6018084", "304.9970244", "307.2292339", "307.7746954", 
    "307.6803197", "307.3820439", "307.9751343", "307.4492357", "305.1299735", "307.5105224", "306.8530443", 
    "305.7680432", "307.3193381", "306.8631509", "306.8185668", "307.0390632", "305.4182244", "307.700534", 
    "306.1784029", "307.5712078", "306.1657809", "305.189449", "305.8711327", "307.4817421", "305.3787481", 
    "306.0472523", "306.2071925", "305.9580448", "307.9557773", "305.754064", "306.1769804", "307.3841333", 
    "307.2805372", "305.7400142", "305.5328498", "307.6712751", "307.7788903", "306.8111616", "306.1689617", 
    "305.6462088", "305.859433", "306.1031148", "306.9101377", "305.4886536", "307.6575571", "304.9825334", 
    "305.8299527", "305.4030654", "306.3010376", "306.357146", "307.057029", "306.4965379", "305.5599069", 
    "305.5645026", "306.2943541", "307.1203741", "307.5704016", "307.8517386", "306.0768634", "307.2010159", 
    "305.5804168", "306.5364965", "306.3469362", "306.8309923", "306.6511972", "306.9782457", "305.2733407", 
    "305.4728793", "305.2912188", "307.8001396", "305.627772", "307.1668523", "306.4876935", "307.3750693", 
    "305.7695079", "306.8056921", "307.0369189", "306.5110383", "306.0620944", "307.4957863", "306.9752775", 
    "306.5710425", "305.4477758", "305.4528515", "305.7233082", "306.3863738", "305.7117551", "306.2012565", 
    "305.927307", "307.4829772", "305.0606872", "307.7354487", "306.1107522", "306.1136096", "304.9820865", 
    "307.0581987", "307.050172", "305.0797664", "305.622729", "304.9810833", "306.5723329", "307.2196545", 
    "307.2654846", "307.7160309", "307.4282317", "306.9246549", "307.1567933", "304.9786722", "305.1201814", 
    "306.8880356", "305.4620093", "305.0589237", "307.4431505", "304.7908602", "305.8305925", "304.8857783", 
    "307.2814716", "307.3583644", "305.4137979", "306.2091732", "304.8884508", "307.556866", "307.3039035", 
    "306.9252168", "305.1672539", "305.2869234", "306.2486871", "305.4460185", "305.2625659", "306.6338623", 
    "307.4689719", "305.0662185", "305.8718175", "306.7560277", "307.0427027", "305.0387176", "305.4424005", 
    "305.6777791", "305.1410258", "306.6966423", "304.8519419", "306.1619919", "305.3890482", "305.7128601", 
    "306.9203805", "306.0250744", "305.2912094", "306.6868383", "304.846985", "304.7523684", "307.6827671", 
    "304.8480043", "306.0399757", "307.5736516", "306.2654723", "305.4405891", "304.9586484", "307.2184755", 
    "306.2588872", "306.7142365", "305.5502765", "305.8823466", "307.7645003", "306.8094696", "307.2397953", 
    "307.0704621", "307.0551947", "307.2942226", "307.4862859", "306.9189325", "305.3964363", "305.019566", 
    "306.7367947", "307.0990798", "307.3439834", "305.4991304", "305.0246621", "305.6974766", "307.3646664", 
    "305.5134816", "307.1263851", "305.3737373", "306.3000549", "306.8270476", "307.1980537", "305.1637352", 
    "305.0388343", "306.6245695", "307.4167664", "306.1423806", "307.6053206", "306.1912851", "304.9290219", 
    "307.7331187", "306.0684097", "307.8110142", "305.9730081", "305.3432728", "307.4122775", "306.4808796", 
    "306.9049017", "306.4334538", "307.0952438", "306.3211153", "306.511188", "306.4861401", "306.7099309", 
    "305.2563924", "306.5516842", "306.8426088", "307.2826085", "306.9847809", "307.4888327", "307.5039328", 
    "307.4879898", "305.4206951", "307.7067811", "307.4928402", "305.6940031", "306.9157713", "307.7426473", 
    "307.2470943", "305.7712094", "305.5839218", "307.1594446", "306.4227357", "307.5168061", "307.71615", 
    "305.9652921", "307.1660465", "307.6245405", "305.0945084", "306.1365997", "305.3019045", "306.5104383", 
    "304.8732433", "306.5101915", "307.0313022", "306.9501966", "304.8972697", "306.0793411", "305.1392824", 
    "305.8013785", "306.9592517", "305.8477576", "305.6857825", "305.0814681", "307.5763435", "307.0051189", 
    "305.0225708", "305.2497508", "306.5764733", "306.3426292", "305.5495827", "306.8298108", "306.8085155", 
    "306.2967501", "307.6348655", "305.0412606", "306.7269981", "307.5228473", "306.6590694", "305.8149035", 
    "306.1341824", "307.5910359", "307.311384", "305.4218405", "306.4511726", "307.118042", "305.3233664", 
    "307.7590667", "305.9716328", "306.8776062", "305.3084645", "306.1507973", "305.0561959", "307.3528002", 
    "306.7036441", "305.1209326", "306.9318865", "306.9471204", "305.1141925", "306.5349586", "306.1560218", 
    "306.8049769" >>
===================================================================================
