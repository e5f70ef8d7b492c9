// Compile-time RGB colors: all values of each channel, all digit lengths, random ones.
#[macro_export]
macro_rules! rgb_some {
    ($m:ident $($x:tt)*) => { $m! { $($x)*
        (0 165 77) (202 0 24) (37 48 0) (1 187 29) (109 1 19) (44 222 1) (2 214 35) (123 2 46) (217 30 2) (3 63 114)
        (31 3 203) (25 113 3) (4 23 68) (148 4 214) (73 60 4) (5 157 92) (52 5 96) (190 49 5) (6 32 30) (105 6 254)
        (218 160 6) (7 238 232) (185 7 153) (127 92 7) (8 124 41) (153 8 253) (175 229 8) (9 147 37) (60 9 214)
        (84 175 9) (10 77 250) (215 10 20) (39 160 10) (11 174 179) (254 11 233) (35 47 11) (12 138 242) (33 12 31)
        (158 228 12) (13 145 197) (177 13 11) (236 181 13) (14 86 59) (252 14 30) (111 147 14) (15 66 126) (203 15 200)
        (254 41 15) (16 85 229) (205 16 142) (70 220 16) (17 142 212) (183 17 194) (118 77 17) (18 42 90) (77 18 118)
        (119 6 18) (19 248 93) (134 19 144) (2 74 19) (20 214 189) (163 20 64) (27 233 20) (21 200 203) (204 21 201)
        (53 246 21) (22 205 31) (97 22 34) (106 225 22) (23 83 56) (174 23 26) (52 0 23) (24 77 51) (186 24 13)
        (36 106 24) (25 192 76) (129 25 177) (186 242 25) (26 62 59) (249 26 238) (245 247 26) (27 159 43) (73 27 52)
        (175 135 27) (28 245 82) (11 28 105) (185 75 28) (29 13 152) (46 29 133) (187 85 29) (30 182 114) (168 30 114)
        (99 122 30) (31 205 116) (102 31 252) (182 14 31) (32 14 143) (241 32 132) (99 176 32) (33 228 178) (186 33 41)
        (112 52 33) (34 116 240) (100 34 172) (104 247 34) (35 0 245) (176 35 43) (61 198 35) (36 102 244) (91 36 222)
        (170 44 36) (37 202 237) (205 37 43) (81 87 37) (38 65 14) (77 38 238) (74 242 38) (39 179 79) (67 39 10)
        (7 52 39) (40 71 222) (99 40 108) (14 128 40) (41 108 149) (123 41 166) (132 214 41) (42 67 31) (181 42 234)
        (215 66 42) (43 77 9) (225 43 93) (2 76 43) (44 88 72) (242 44 61) (31 166 44) (45 247 54) (29 45 127) (97 141 45)
        (46 21 50) (231 46 14) (32 226 46) (47 166 102) (141 47 231) (244 126 47) (48 132 103) (229 48 70) (213 62 48)
        (49 200 226) (161 49 37) (123 219 49) (50 37 108) (155 50 62) (79 187 50) (51 73 129) (70 51 239) (112 48 51)
        (52 203 249) (83 52 114) (82 220 52) (53 206 173) (215 53 100) (182 163 53) (54 47 187) (9 54 173) (234 225 54)
        (55 9 196) (169 55 151) (32 57 55) (56 117 53) (43 56 135) (139 20 56) (57 92 138) (66 57 216) (132 207 57)
        (58 76 253) (167 58 45) (142 29 58) (59 93 217) (37 59 137) (8 45 59) (60 133 42) (113 60 34) (135 62 60)
        (61 232 5) (173 61 213) (137 66 61) (62 22 122) (56 62 82) (134 25 62) (63 92 103) (159 63 156) (105 148 63)
        (64 228 91) (138 64 177) (9 128 64) (65 18 7) (9 65 97) (243 125 65) (66 228 54) (221 66 253) (201 157 66)
        (67 110 117) (175 67 101) (71 207 67) (68 177 27) (66 68 7) (36 130 68) (69 220 83) (28 69 43) (195 144 69)
        (70 124 150) (23 70 235) (94 80 70) (71 137 228) (1 71 134) (186 168 71) (72 165 125) (17 72 158) (111 182 72)
        (73 93 0) (171 73 195) (42 243 73) (74 142 102) (127 74 2) (46 135 74) (75 45 73) (204 75 21) (201 11 75)
        (76 153 155) (119 76 43) (79 199 76) (77 166 253) (76 77 145) (74 22 77) (78 219 71) (8 78 117) (43 15 78)
        (79 21 68) (184 79 53) (192 231 79) (80 25 9) (125 80 250) (135 1 80) (81 233 35) (47 81 33) (242 129 81)
        (82 38 135) (120 82 105) (118 235 82) (83 252 195) (39 83 245) (147 23 83) (84 101 39) (75 84 169) (130 155 84)
        (85 68 6) (246 85 31) (248 137 85) (86 50 111) (250 86 148) (146 237 86) (87 238 238) (60 87 102) (159 43 87)
        (88 242 8) (148 88 234) (39 230 88) (89 137 198) (107 89 107) (38 46 89) (90 72 134) (184 90 67) (143 57 90)
        (91 186 118) (254 91 248) (201 12 91) (92 81 1) (251 92 230) (207 154 92) (93 72 213) (176 93 192) (161 61 93)
        (94 169 0) (166 94 173) (203 61 94) (95 100 6) (148 95 129) (190 33 95) (96 201 199) (39 96 184) (219 140 96)
        (97 24 143) (52 97 26) (146 76 97) (98 127 136) (223 98 161) (97 191 98) (99 219 14) (204 99 104) (41 25 99)
        (100 210 230) (70 100 146) (248 25 100) (101 65 87) (241 101 212) (175 144 101) (102 152 130) (133 102 207)
        (122 154 102) (103 247 201) (61 103 85) (82 38 103) (104 106 254) (112 104 231) (170 230 104) (105 218 71)
        (98 105 124) (46 89 105) (106 175 46) (163 106 122) (188 132 106) (107 103 10) (211 107 196) (211 107 107)
        (108 192 138) (173 108 31) (255 142 108) (109 184 64) (110 109 47) (138 127 109) (110 196 204) (228 110 221)
        (159 11 110) (111 65 16) (217 111 242) (250 0 111) (112 37 200) (239 112 229) (127 55 112) (113 114 79)
        (77 113 55) (234 43 113) (114 20 0) (64 114 119) (19 155 114) (115 65 128) (223 115 57) (50 36 115) (116 153 98)
        (198 116 133) (114 0 116) (117 5 154) (235 117 142) (161 124 117) (118 243 120) (126 118 14) (210 157 118)
        (119 28 11) (99 119 255) (215 41 119) (120 131 116) (217 120 189) (116 252 120) (121 17 173) (215 121 185)
        (202 101 121) (122 3 149) (34 122 105) (253 102 122) (123 159 99) (118 123 238) (113 135 123) (124 151 55)
        (253 124 95) (114 248 124) (125 213 28) (74 125 201) (27 109 125) (126 12 72) (212 126 26) (30 94 126) (127 201 230)
        (160 127 57) (40 84 127) (128 168 97) (94 128 239) (16 159 128) (129 193 191) (169 129 226) (86 55 129)
        (130 1 40) (143 130 41) (179 215 130) (131 63 106) (194 131 182) (158 221 131) (132 44 25) (242 132 100)
        (190 228 132) (133 98 165) (186 133 242) (15 210 133) (134 126 207) (20 134 192) (17 237 134) (135 32 31)
        (131 135 99) (32 173 135) (136 185 139) (171 136 22) (134 162 136) (137 141 152) (1 137 33) (12 119 137)
        (138 54 243) (238 138 197) (128 220 138) (139 252 67) (254 139 93) (4 155 139) (140 77 120) (167 140 163)
        (235 185 140) (141 40 101) (200 141 81) (126 208 141) (142 33 17) (246 142 166) (82 218 142) (143 53 36)
        (135 143 43) (106 49 143) (144 215 255) (228 144 88) (119 68 144) (145 213 235) (120 145 62) (150 150 145)
        (146 143 137) (190 146 130) (133 101 146) (147 224 126) (95 147 125) (120 78 147) (148 144 96) (167 148 33)
        (202 128 148) (149 125 118) (51 149 237) (18 52 149) (150 2 243) (118 150 229) (191 20 150) (151 150 119)
        (61 151 25) (97 99 151) (152 38 190) (91 152 229) (133 3 152) (153 54 179) (111 153 19) (188 174 153) (154 72 22)
        (104 154 130) (19 104 154) (155 5 167) (209 155 190) (94 159 155) (156 39 104) (16 156 253) (247 32 156)
        (157 208 51) (202 157 79) (46 83 157) (158 203 138) (209 158 145) (157 213 158) (159 26 159) (182 159 212)
        (213 9 159) (160 186 100) (200 160 207) (104 3 160) (161 222 80) (216 161 58) (46 207 161) (162 186 235)
        (83 162 66) (7 26 162) (163 72 203) (45 163 189) (87 74 163) (164 178 145) (82 164 87) (34 55 164) (165 196 251)
        (101 165 154) (64 22 165) (166 247 161) (27 166 198) (44 82 166) (167 113 207) (100 167 242) (93 111 167)
        (168 21 204) (80 168 196) (183 63 168) (169 76 126) (98 169 21) (19 165 169) (170 60 199) (233 170 156)
        (215 157 170) (171 127 217) (199 171 188) (228 224 171) (172 91 11) (1 172 250) (238 120 172) (173 228 234)
        (91 173 242) (204 54 173) (174 34 65) (183 174 220) (187 46 174) (175 226 20) (20 175 66) (42 160 175) (176 40 27)
        (193 176 69) (13 33 176) (177 56 99) (67 177 251) (147 84 177) (178 113 33) (179 178 129) (81 165 178) (179 140 233)
        (73 179 130) (245 106 179) (180 134 121) (163 180 190) (18 101 180) (181 93 206) (82 181 142) (167 192 181)
        (182 86 135) (58 182 24) (184 231 182) (183 53 129) (201 183 190) (135 192 183) (184 188 74) (184 184 169)
        (41 226 184) (185 117 90) (24 185 151) (129 158 185) (186 160 0) (17 186 113) (76 148 186) (187 221 213)
        (186 187 24) (67 250 187) (188 116 23) (11 188 27) (1 181 188) (189 155 54) (182 189 114) (211 154 189)
        (190 68 104) (187 190 243) (81 68 190) (191 7 124) (76 191 230) (49 32 191) (192 74 138) (205 192 135) (5 28 192)
        (193 179 227) (252 193 127) (84 0 193) (194 22 31) (12 194 207) (95 121 194) (195 81 29) (53 195 6) (100 72 195)
        (196 211 102) (212 196 89) (158 32 196) (197 153 24) (244 197 3) (192 223 197) (198 238 41) (231 198 89)
        (115 53 198) (199 133 118) (19 199 63) (171 134 199) (200 26 136) (223 200 135) (151 111 200) (201 43 7)
        (86 201 133) (120 103 201) (202 81 167) (98 202 199) (168 122 202) (203 194 240) (241 203 3) (13 223 203)
        (204 119 157) (108 204 200) (39 87 204) (205 74 16) (13 205 57) (54 82 205) (206 176 72) (14 206 15) (21 70 206)
        (207 21 34) (23 207 33) (186 102 207) (208 33 196) (54 208 126) (105 104 208) (209 57 17) (17 209 44) (147 244 209)
        (210 51 67) (50 210 104) (150 163 210) (211 172 216) (133 211 10) (179 131 211) (212 144 24) (188 212 164)
        (243 147 212) (213 15 211) (15 213 223) (50 177 213) (214 240 24) (110 214 46) (147 87 214) (215 223 0)
        (103 215 147) (27 2 215) (216 178 251) (48 216 251) (94 253 216) (217 177 133) (81 217 145) (109 118 217)
        (218 255 84) (56 218 41) (251 53 218) (219 167 182) (48 219 205) (202 44 219) (220 216 12) (190 220 105)
        (155 134 220) (221 219 87) (194 221 119) (235 64 221) (222 17 178) (167 222 79) (230 165 222) (223 86 237)
        (224 223 131) (118 64 223) (224 171 236) (121 224 98) (136 154 224) (225 79 79) (126 225 167) (178 82 225)
        (226 120 167) (96 226 132) (52 84 226) (227 52 100) (196 227 77) (75 154 227) (228 152 222) (140 228 100)
        (55 54 228) (229 143 105) (198 229 237) (17 6 229) (230 204 223) (113 230 151) (237 11 230) (231 72 131)
        (207 231 2) (124 220 231) (232 215 117) (117 232 92) (63 232 232) (233 221 160) (133 233 50) (214 124 233)
        (234 204 80) (128 234 216) (247 233 234) (235 10 209) (93 235 167) (5 199 235) (236 250 54) (19 236 128)
        (111 82 236) (237 102 178) (51 237 233) (104 243 237) (238 8 189) (175 238 210) (233 107 238) (239 94 200)
        (62 239 182) (28 129 239) (240 140 195) (204 240 31) (6 38 240) (241 214 215) (180 241 135) (55 114 241)
        (242 155 205) (112 242 200) (236 108 242) (243 84 66) (35 243 98) (240 115 243) (244 74 180) (211 244 239)
        (150 64 244) (245 240 181) (117 245 136) (192 129 245) (246 218 95) (246 246 1) (143 183 246) (247 125 154)
        (164 247 245) (248 219 247) (248 43 185) (78 248 155) (197 29 248) (249 43 166) (71 249 176) (7 5 249) (250 107 36)
        (150 250 128) (51 73 250) (251 119 95) (231 251 177) (78 106 251) (252 206 85) (46 252 152) (101 253 252)
        (253 109 40) (224 253 59) (60 135 253) (254 214 119) (71 254 242) (252 29 254) (255 247 239) (73 255 251)
        (126 255 255) (0 0 0) (0 0 9) (0 0 10) (0 0 99) (0 0 100) (0 0 255) (0 9 0) (0 9 9) (0 9 10) (0 9 99) (0 9 100)
        (0 9 255) (0 10 0) (0 10 9) (0 10 10) (0 10 99) (0 10 100) (0 10 255) (0 99 0) (0 99 9) (0 99 10) (0 99 99)
        (0 99 100) (0 99 255) (0 100 0) (0 100 9) (0 100 10) (0 100 99) (0 100 100) (0 100 255) (0 255 0) (0 255 9)
        (0 255 10) (0 255 99) (0 255 100) (0 255 255) (9 0 0) (9 0 9) (9 0 10) (9 0 99) (9 0 100) (9 0 255) (9 9 0)
        (9 9 9) (9 9 10) (9 9 99) (9 9 100) (9 9 255) (9 10 0) (9 10 9) (9 10 10) (9 10 99) (9 10 100) (9 10 255)
        (9 99 0) (9 99 9) (9 99 10) (9 99 99) (9 99 100) (9 99 255) (9 100 0) (9 100 9) (9 100 10) (9 100 99) (9 100 100)
        (9 100 255) (9 255 0) (9 255 9) (9 255 10) (9 255 99) (9 255 100) (9 255 255) (10 0 0) (10 0 9) (10 0 10)
        (10 0 99) (10 0 100) (10 0 255) (10 9 0) (10 9 9) (10 9 10) (10 9 99) (10 9 100) (10 9 255) (10 10 0) (10 10 9)
        (10 10 10) (10 10 99) (10 10 100) (10 10 255) (10 99 0) (10 99 9) (10 99 10) (10 99 99) (10 99 100) (10 99 255)
        (10 100 0) (10 100 9) (10 100 10) (10 100 99) (10 100 100) (10 100 255) (10 255 0) (10 255 9) (10 255 10)
        (10 255 99) (10 255 100) (10 255 255) (99 0 0) (99 0 9) (99 0 10) (99 0 99) (99 0 100) (99 0 255) (99 9 0)
        (99 9 9) (99 9 10) (99 9 99) (99 9 100) (99 9 255) (99 10 0) (99 10 9) (99 10 10) (99 10 99) (99 10 100)
        (99 10 255) (99 99 0) (99 99 9) (99 99 10) (99 99 99) (99 99 100) (99 99 255) (99 100 0) (99 100 9) (99 100 10)
        (99 100 99) (99 100 100) (99 100 255) (99 255 0) (99 255 9) (99 255 10) (99 255 99) (99 255 100) (99 255 255)
        (100 0 0) (100 0 9) (100 0 10) (100 0 99) (100 0 100) (100 0 255) (100 9 0) (100 9 9) (100 9 10) (100 9 99)
        (100 9 100) (100 9 255) (100 10 0) (100 10 9) (100 10 10) (100 10 99) (100 10 100) (100 10 255) (100 99 0)
        (100 99 9) (100 99 10) (100 99 99) (100 99 100) (100 99 255) (100 100 0) (100 100 9) (100 100 10) (100 100 99)
        (100 100 100) (100 100 255) (100 255 0) (100 255 9) (100 255 10) (100 255 99) (100 255 100) (100 255 255)
        (255 0 0) (255 0 9) (255 0 10) (255 0 99) (255 0 100) (255 0 255) (255 9 0) (255 9 9) (255 9 10) (255 9 99)
        (255 9 100) (255 9 255) (255 10 0) (255 10 9) (255 10 10) (255 10 99) (255 10 100) (255 10 255) (255 99 0)
        (255 99 9) (255 99 10) (255 99 99) (255 99 100) (255 99 255) (255 100 0) (255 100 9) (255 100 10) (255 100 99)
        (255 100 100) (255 100 255) (255 255 0) (255 255 9) (255 255 10) (255 255 99) (255 255 100) (255 255 255)
        (1 5 7) (1 5 70) (1 5 170) (1 5 249) (1 50 7) (1 50 70) (1 50 170) (1 50 249) (1 105 7) (1 105 70) (1 105 170)
        (1 105 249) (1 250 7) (1 250 70) (1 250 170) (1 250 249) (19 5 7) (19 5 70) (19 5 170) (19 5 249) (19 50 7)
        (19 50 70) (19 50 170) (19 50 249) (19 105 7) (19 105 70) (19 105 170) (19 105 249) (19 250 7) (19 250 70)
        (19 250 170) (19 250 249) (199 5 7) (199 5 70) (199 5 170) (199 5 249) (199 50 7) (199 50 70) (199 50 170)
        (199 50 249) (199 105 7) (199 105 70) (199 105 170) (199 105 249) (199 250 7) (199 250 70) (199 250 170)
        (199 250 249) (200 5 7) (200 5 70) (200 5 170) (200 5 249) (200 50 7) (200 50 70) (200 50 170) (200 50 249)
        (200 105 7) (200 105 70) (200 105 170) (200 105 249) (200 250 7) (200 250 70) (200 250 170) (200 250 249)
       
    } };
}
#[macro_export]
macro_rules! rgb_more {
    ($m:ident $($x:tt)*) => { $m! { $($x)*
        (84 8 164) (239 63 191) (218 6 184) (14 23 169) (48 8 17) (109 80 48) (187 60 222) (175 32 149) (181 170 139)
        (176 3 169) (98 5 44) (20 207 25) (204 4 97) (243 30 192) (75 9 20) (234 2 215) (51 47 132) (154 53 10)
        (220 82 20) (60 73 34) (7 76 211) (52 1 77) (7 4 62) (45 15 9) (141 230 95) (25 74 43) (150 90 130) (26 0 40)
        (199 39 30) (161 73 85) (74 83 213) (244 99 170) (149 170 7) (77 9 192) (198 77 145) (0 33 80) (21 18 255)
        (177 10 102) (119 29 202) (238 32 235) (44 8 203) (132 244 103) (96 3 148) (185 72 76) (126 0 190) (237 161 15)
        (176 4 17) (104 62 143) (218 57 19) (173 3 14) (26 189 234) (249 1 46) (131 119 45) (201 57 120) (113 4 30)
        (14 0 51) (74 5 152) (225 60 131) (199 47 86) (225 18 99) (18 39 191) (71 7 38) (231 41 59) (187 113 29)
        (92 70 76) (136 6 13) (138 9 133) (251 40 58) (78 108 244) (146 32 221) (133 30 148) (212 2 8) (226 43 0)
        (146 2 209) (111 4 92) (117 2 253) (140 70 98) (157 33 208) (28 44 252) (46 0 136) (127 2 83) (190 76 228)
        (36 45 195) (31 13 13) (68 0 93) (85 128 15) (9 89 9) (237 8 179) (48 2 238) (252 9 62) (62 6 75) (236 9 199)
        (215 77 26) (185 51 223) (164 71 75) (180 54 55) (95 1 10) (115 53 23) (20 136 139) (18 9 6) (222 3 156)
        (177 30 137) (43 75 63) (67 52 124) (44 232 113) (197 70 155) (244 7 170) (113 196 202) (6 20 166) (251 36 29)
        (11 34 178) (225 66 181) (55 28 172) (180 103 141) (48 34 52) (2 98 203) (76 35 231) (234 92 180) (200 196 164)
        (3 48 94) (155 193 118) (45 41 104) (218 3 254) (153 159 223) (220 6 179) (231 34 117) (50 205 78) (96 62 175)
        (47 46 38) (159 56 150) (175 80 148) (106 8 30) (54 21 210) (5 39 203) (50 9 89) (254 136 73) (101 6 80)
        (54 0 251) (239 31 6) (165 91 141) (86 50 32) (178 3 27) (112 74 27) (122 3 88) (161 58 129) (253 199 113)
        (211 4 124) (44 21 95) (3 4 171) (197 5 216) (179 8 239) (145 5 142) (12 123 66) (47 65 226) (239 20 110)
        (207 80 243) (104 67 133) (225 47 108) (64 46 138) (197 84 7) (199 1 164) (96 185 152) (98 1 115) (147 91 182)
        (206 99 90) (15 86 12) (236 180 50) (93 138 112) (20 5 101) (155 20 159) (91 254 130) (222 9 146) (21 9 56)
        (19 176 44) (213 95 46) (178 174 231) (27 54 96) (22 89 83) (120 8 86) (183 5 159) (70 249 247) (121 3 179)
        (153 72 123) (170 1 79) (236 58 148) (6 5 30) (143 56 158) (229 20 239) (185 4 5) (239 169 135) (55 7 164)
        (4 146 128) (125 1 202) (74 95 86) (52 95 94) (182 5 189) (129 3 206) (25 63 80) (153 9 116) (83 2 20) (225 111 190)
        (1 0 145) (36 65 32) (224 90 84) (193 226 178) (100 165 235) (219 80 41) (30 152 215) (188 84 175) (14 229 43)
        (75 47 123) (225 6 92) (103 8 129) (48 128 250) (116 115 57) (41 86 68) (58 235 200) (87 3 70) (191 9 24)
        (190 1 153) (61 44 103) (58 187 174) (5 15 182) (250 0 182) (167 17 124) (130 5 225) (58 0 132) (94 148 194)
        (73 32 7) (12 249 247) (16 93 200) (243 88 117) (38 42 67) (22 184 239) (169 59 160) (3 74 116) (10 23 74)
        (73 4 134) (182 71 17) (48 218 50) (185 72 36) (155 185 125) (179 91 30) (172 5 120) (178 2 232) (207 7 33)
        (73 92 174) (37 40 91) (155 45 219) (34 40 131) (11 2 10) (111 0 144) (50 3 24) (40 174 69) (2 7 165) (14 167 13)
        (248 6 29) (212 11 204) (131 1 160) (28 6 47) (9 73 46) (183 176 78) (169 132 244) (16 232 142) (185 8 129)
        (4 51 185) (77 3 68) (62 104 93) (132 9 82) (14 99 255) (109 5 165) (13 1 205) (179 29 192) (114 32 222)
        (123 45 217) (142 110 80) (244 96 144) (45 5 82) (163 9 26) (107 5 222) (71 4 77) (4 77 180) (49 2 212)
        (173 16 120) (103 69 118) (220 1 162) (33 1 219) (1 75 57) (181 7 114) (37 4 135) (137 100 24) (208 8 166)
        (21 144 169) (210 51 214) (196 49 73) (2 130 193) (123 3 17) (25 166 226) (161 73 240) (175 9 193) (181 136 164)
        (36 114 135) (134 178 244) (113 186 104) (86 5 235) (90 41 219) (62 19 52) (186 84 45) (140 228 57) (230 89 76)
        (3 250 121) (189 43 9) (102 0 91) (156 35 123) (135 7 103) (65 6 226) (192 5 220) (131 197 66) (98 32 104)
        (168 10 201) (212 7 236) (236 6 33) (225 69 4) (118 20 150) (169 6 46) (113 1 254) (45 3 102) (171 213 71)
        (208 80 171) (97 95 140) (134 40 152) (202 53 155) (127 55 103) (67 26 250) (72 43 26) (160 68 165) (18 28 102)
        (107 78 227) (104 7 63) (25 2 7) (84 7 81) (74 66 48) (103 1 131) (226 29 68) (21 2 163) (78 166 109) (77 50 194)
        (79 4 237) (76 170 205) (58 62 107) (37 4 254) (47 62 45) (103 2 153) (16 9 176) (99 2 88) (170 5 168) (186 2 232)
        (48 82 201) (236 20 49) (211 2 191) (83 21 2) (245 4 54) (122 19 60) (166 83 21) (131 25 104) (65 3 7) (54 107 117)
        (44 2 217) (201 66 61) (43 9 31) (125 1 21) (110 98 175) (43 7 162) (210 6 75) (85 2 101) (112 5 245) (19 7 32)
        (101 0 178) (83 7 132) (155 238 84) (222 153 59) (34 4 101) (234 252 25) (200 80 207) (44 173 218) (156 250 8)
        (56 210 153) (234 2 181) (201 79 171) (45 23 123) (61 87 94) (199 42 85) (114 78 255) (163 8 200) (4 0 232)
        (128 51 192) (69 4 169) (227 37 192) (30 186 9) (29 71 159) (77 9 166) (247 2 96) (23 143 123) (149 215 208)
        (43 184 142) (165 2 177) (71 3 157) (87 6 184) (95 4 164) (224 13 201) (163 6 104) (230 52 22) (77 240 210)
        (39 185 202) (147 1 21) (156 77 124) (35 211 56) (157 90 60) (206 95 200) (255 95 73) (211 17 33) (211 1 120)
        (221 140 67) (77 122 63) (144 95 67) (196 34 139) (109 39 40) (184 0 166) (111 58 140) (30 7 239) (56 150 174)
        (169 8 106) (144 9 88) (14 34 32) (140 74 199) (209 85 168) (128 244 68) (220 7 174) (97 51 99) (39 8 100)
        (135 151 11) (8 45 6) (135 83 161) (181 22 89) (181 6 175) (54 46 42) (172 5 128) (199 128 10) (98 223 196)
        (82 6 56) (109 9 4) (44 7 36) (165 79 105) (3 26 53) (50 16 233) (225 72 86) (204 240 241) (72 1 122) (117 114 19)
        (124 1 238) (24 112 22) (211 5 9) (245 1 73) (83 9 195) (1 43 39) (27 78 203) (3 8 95) (234 106 219) (56 180 48)
        (44 12 140) (154 4 252) (171 3 22) (58 27 208) (107 30 15) (69 92 150) (226 90 153) (178 0 83) (226 242 166)
        (140 211 10) (174 69 0) (122 5 18) (160 80 32) (62 108 27) (125 45 108) (111 6 133) (220 224 85) (145 31 14)
        (46 132 72) (35 8 39) (32 1 185) (38 57 252) (140 22 155) (202 89 48) (235 5 198) (115 179 171) (142 9 45)
        (80 9 23) (73 12 130) (45 9 33) (151 34 186) (90 47 187) (85 8 84) (146 6 99) (112 123 241) (134 50 193)
        (189 36 224) (249 235 251) (47 15 88) (118 6 97) (34 46 122) (173 36 113) (247 3 30) (221 122 87) (161 12 135)
        (239 7 231) (162 143 184) (34 90 131) (92 12 240) (16 82 71) (186 164 21) (188 2 234) (41 27 224) (71 160 102)
        (33 6 184) (247 8 251) (108 27 103) (158 34 16) (208 211 11) (191 2 132) (232 7 133) (123 15 76) (70 8 85)
        (119 41 231) (209 4 137) (208 1 8) (148 1 215) (37 153 59) (228 189 98) (223 129 195) (92 82 187) (131 29 241)
        (108 1 174) (92 41 45) (106 8 119) (189 48 65) (113 3 69) (207 53 232) (170 69 223) (161 9 82) (201 149 104)
        (127 98 154) (130 232 23) (101 211 139) (14 1 127) (2 29 121) (9 0 101) (76 37 178) (163 53 170) (28 33 46)
        (32 9 168) (174 8 26) (78 151 8) (117 4 33) (77 90 118) (47 7 6) (98 55 234) (123 216 169) (29 0 148) (108 7 104)
        (159 4 115) (237 90 161) (156 0 150) (25 5 89) (125 3 61) (185 7 54) (35 49 34) (129 28 244) (214 228 161)
        (26 1 142) (68 0 238) (17 35 174) (223 10 48) (26 69 54) (36 5 122) (88 218 173) (185 234 59) (46 94 115)
        (94 36 103) (66 54 173) (126 240 76) (164 174 96) (214 118 176) (5 4 167) (116 34 191) (180 6 116) (6 125 26)
        (87 129 166) (194 6 172) (28 5 24) (233 236 109) (174 5 60) (167 3 36) (34 7 236) (205 61 240) (163 159 180)
        (54 75 228) (213 0 106) (185 63 17) (236 9 67) (219 148 182) (51 3 187) (221 48 103) (167 42 5) (73 9 8)
        (57 9 106) (11 110 236) (79 8 224) (15 132 141) (119 6 47) (2 84 121) (130 3 89) (103 56 236) (110 54 0)
        (226 1 163) (235 110 172) (209 3 209) (182 55 82) (111 7 161) (63 37 245) (225 62 241) (101 74 86) (119 1 206)
        (51 93 180) (200 2 244) (181 80 152) (80 2 74) (187 41 80) (206 2 13) (165 56 186) (10 166 244) (59 198 133)
        (8 49 6) (141 5 193) (11 1 71) (75 4 223) (135 1 45) (76 20 254) (197 91 64) (154 0 63) (19 0 237) (82 101 183)
        (101 15 200) (209 57 12) (89 23 30) (228 79 7) (231 172 202) (75 71 89) (196 2 2) (185 96 194) (209 61 192)
        (97 2 167) (162 8 250) (140 1 219) (42 150 218) (2 1 192) (141 77 131) (41 7 18) (252 33 132) (142 218 142)
        (233 5 23) (74 6 192) (127 64 244) (13 1 237) (240 93 94) (69 95 133) (172 20 114) (128 4 154) (32 6 50)
        (213 30 196) (118 61 82) (61 8 70) (240 137 188) (50 8 175) (48 5 255) (144 49 14) (162 58 233) (189 99 101)
        (89 24 150) (125 9 107) (36 3 56) (146 24 25) (218 160 4) (212 5 103) (91 3 136) (165 6 217) (56 65 186)
        (11 218 197) (82 187 68) (183 5 80) (77 2 158) (49 63 7) (29 3 2) (123 30 198) (219 5 25) (231 19 92) (101 33 45)
        (173 1 228) (125 22 166) (54 84 23) (254 80 29) (145 8 52) (97 8 107) (221 4 122) (239 114 203) (51 44 147)
        (186 136 169) (113 213 220) (35 2 98) (134 48 99) (50 72 32) (242 18 223) (65 94 23) (38 1 113) (137 21 141)
        (82 7 67) (46 8 79) (133 1 113) (1 2 156) (162 226 100) (159 247 172) (64 113 142) (65 2 94) (22 8 228)
        (191 127 192) (148 51 247) (164 93 156) (232 184 106) (119 130 187) (8 70 184) (209 0 174) (172 13 52) (189 3 67)
        (173 56 79) (160 93 80) (180 7 18) (88 0 77) (191 15 225) (203 32 199) (95 6 164) (170 17 96) (105 74 50)
        (102 241 164) (62 166 46) (235 30 159) (213 5 169) (204 3 170) (123 19 155) (137 99 6) (27 116 89) (240 8 133)
        (225 1 1) (34 11 2) (221 64 178) (188 2 190) (148 26 183) (171 78 43) (189 1 168) (58 5 184) (113 82 101)
        (228 5 88) (234 2 192) (112 205 21) (254 101 88) (34 88 69) (87 148 68) (247 14 158) (154 113 226) (163 16 229)
        (84 0 16) (75 90 11) (8 9 232) (122 160 173) (13 2 36) (11 9 81) (149 4 225) (143 30 146) (116 247 73) (195 59 100)
        (112 4 156) (202 0 225) (188 178 248) (13 96 107) (81 5 78) (217 2 127) (180 12 178) (62 192 111) (161 0 70)
        (64 48 222) (239 6 51) (79 22 113) (222 6 93) (97 60 248) (50 0 52) (222 156 116) (88 47 33) (80 129 51)
        (30 9 105) (43 32 250) (93 0 114) (190 3 114) (4 42 251) (11 3 160) (198 6 159) (213 225 223) (243 22 108)
        (25 236 125) (60 87 4) (6 249 80) (98 16 104) (73 1 151) (11 166 118) (172 24 40) (146 156 83) (59 93 12)
        (188 202 212) (62 66 249) (227 6 194) (102 61 142) (56 5 103) (78 49 78) (87 6 62) (8 17 227) (155 9 55)
        (207 64 186) (64 7 77) (113 99 36) (70 53 123) (160 49 209) (156 9 219) (32 110 142) (254 4 144) (233 153 140)
        (43 66 117) (188 149 157) (191 140 123) (222 7 65) (7 32 132) (99 89 49) (153 243 214) (22 200 217) (100 85 204)
        (202 72 172) (238 123 38) (88 34 170) (159 94 90) (87 19 172) (52 73 114) (168 38 105) (202 55 238) (6 7 48)
        (116 6 50) (236 6 229) (146 190 16) (63 248 74) (204 69 177) (204 46 171) (222 3 190) (52 130 133) (140 99 236)
        (239 56 89) (58 3 69) (107 7 170) (228 7 89) (228 1 9) (246 64 118) (70 0 173) (156 7 4) (165 0 113) (171 0 216)
        (250 50 193) (161 49 33) (255 8 251) (50 84 221) (12 93 23) (215 35 126) (179 9 151) (26 120 204) (14 74 244)
        (155 148 7) (75 5 15) (84 4 166) (72 224 197) (177 89 147) (189 67 26) (62 203 32) (167 9 68) (155 20 62)
        (235 96 61) (110 2 27) (132 98 167) (66 201 74) (229 4 190) (77 10 62) (103 98 165) (50 238 81) (226 11 92)
        (82 3 205) (42 232 26) (209 14 174) (102 223 177) (232 46 34) (149 149 60) (109 41 96) (246 4 230) (32 56 253)
        (132 118 80) (221 0 175) (192 71 79) (157 65 166) (228 244 71) (88 81 12) (140 8 218) (10 100 47) (45 3 212)
        (190 232 221) (187 6 157) (58 95 179) (214 30 128) (197 5 255) (105 20 152) (40 30 226) (209 21 33) (88 88 78)
        (154 72 166) (219 3 249) (166 206 142) (190 7 239) (92 232 177) (68 201 33) (97 140 120) (51 8 163) (6 220 190)
        (154 29 106) (179 244 182) (193 15 198) (161 222 107) (250 60 241) (0 70 226) (105 251 94) (101 4 49) (151 98 75)
        (88 6 191) (75 128 211) (138 36 6) (113 5 220) (134 3 6) (139 2 188) (175 65 128) (44 57 187) (21 134 92)
        (243 7 132) (50 3 100) (121 68 255) (191 24 243) (96 0 43) (140 5 89) (49 79 64) (155 74 40) (245 50 10)
        (251 101 60) (235 76 76) (52 71 40) (210 96 196) (236 34 12) (96 7 176) (217 32 42) (22 8 249) (224 84 14)
        (210 34 69) (236 3 75) (14 34 211) (185 214 29) (53 74 69) (252 74 206) (67 53 43) (122 186 50) (93 8 47)
        (168 3 24) (214 4 247) (108 6 237) (240 176 106) (171 93 54) (60 75 24) (137 252 215) (27 218 215) (34 185 200)
        (75 33 46) (225 41 253) (229 75 18) (122 9 146) (238 120 123) (229 89 198) (59 3 178) (235 217 110) (35 242 66)
        (51 1 127) (62 29 111) (166 93 169) (33 5 128) (210 9 229) (63 5 156) (76 130 141) (228 134 224) (108 21 67)
        (109 22 206) (243 6 217) (128 170 105) (195 17 235) (105 172 135) (1 23 46) (108 37 127) (149 27 58) (22 132 40)
        (220 250 174) (232 0 203) (182 51 101) (165 139 44) (119 10 95) (223 126 84) (151 56 89) (15 3 214) (239 2 9)
        (162 2 65) (155 55 80) (209 69 89) (68 21 92) (64 69 165) (122 44 168) (233 60 130) (49 42 9) (50 23 162)
        (28 140 63) (190 43 235) (22 164 51) (161 206 182) (185 7 156) (43 3 20) (144 69 46) (68 71 226) (0 3 121)
        (78 6 203) (245 118 161) (155 8 186) (223 2 169) (3 7 172) (244 14 252) (23 1 204) (164 229 40) (227 227 157)
        (177 93 38) (211 176 64) (216 3 113) (174 51 28) (7 153 199) (153 88 232) (237 4 238) (165 14 250) (89 189 56)
        (168 74 198) (57 42 72) (90 75 160) (112 13 110) (209 33 13) (38 8 195) (131 0 151) (130 25 30) (121 8 173)
        (36 89 50) (73 94 120) (91 174 242) (128 6 12) (29 2 209) (210 9 1) (47 16 226) (89 13 186) (163 7 121)
        (123 9 38) (117 1 224) (57 55 83) (205 89 194) (229 51 49) (231 8 123) (189 10 241) (193 78 95) (237 48 81)
        (168 5 228) (200 223 73) (104 3 36) (156 92 236) (239 36 18) (221 3 176) (211 183 98) (134 3 164) (29 0 55)
        (12 215 224) (182 0 18) (80 136 239) (10 4 34) (37 7 245) (46 34 47) (120 61 166) (0 84 4) (42 2 89) (166 50 222)
        (65 101 155) (3 3 230) (118 173 198) (117 6 46) (49 39 24) (44 9 64) (116 72 122) (137 173 234) (88 7 154)
        (111 29 187) (0 8 57) (113 2 82) (3 33 105) (247 33 69) (212 46 75) (9 252 1) (119 234 105) (247 232 60)
        (2 97 193) (35 0 59) (87 7 195) (142 207 59) (213 32 51) (217 8 142) (76 67 86) (105 23 39) (240 163 44)
        (112 1 48) (41 1 215) (174 202 216) (83 91 104) (110 72 118) (220 28 218) (211 92 135) (253 57 13) (240 68 53)
        (250 7 224) (227 141 173) (198 9 44) (187 19 164) (211 7 67) (105 28 197) (66 20 120) (171 73 34) (157 53 192)
        (188 3 248) (138 2 240) (38 6 60) (51 63 40) (244 32 64) (25 103 254) (77 61 3) (55 120 145) (54 76 84)
        (122 2 240) (4 26 146) (26 5 198) (130 131 58) (70 64 85) (53 165 193) (92 19 6) (247 8 82) (114 1 165)
        (44 198 181) (50 64 50) (242 95 47) (167 1 172) (26 33 180) (63 7 109) (110 68 5) (5 134 135) (107 1 3)
        (92 215 18) (58 91 25) (40 128 193) (204 16 122) (35 57 222) (237 9 26) (164 6 76) (10 160 255) (239 36 66)
        (14 28 122) (182 32 190) (126 4 153) (172 134 152) (82 6 235) (52 1 154) (250 70 9) (180 4 249) (201 0 44)
        (9 70 127) (82 50 195) (52 9 196) (231 8 176) (63 1 44) (137 174 73) (93 9 60) (32 8 167) (93 237 23) (110 2 193)
        (184 164 88) (73 69 153) (113 72 157) (116 20 186) (194 97 30) (136 4 248) (76 6 106) (93 1 158) (149 72 65)
        (196 11 179) (195 36 189) (81 30 58) (81 94 114) (130 52 39) (136 7 27) (183 74 31) (254 28 11) (173 4 50)
        (183 9 124) (186 4 109) (199 189 186) (167 1 38) (96 5 99) (106 0 189) (69 96 239) (91 8 102) (148 7 31)
        (237 39 89) (183 35 107) (225 141 245) (72 18 221) (22 70 23) (74 4 237) (222 206 143) (31 67 179) (99 177 186)
        (92 55 61) (143 52 114) (233 181 219) (215 37 75) (178 93 174) (119 31 73) (128 9 225) (46 5 37) (45 99 159)
        (190 8 65) (33 30 85) (221 16 146) (137 9 217) (74 8 62) (143 150 141) (21 79 166) (29 249 104) (192 2 24)
        (118 3 42) (254 14 200) (19 88 177) (22 193 27) (102 68 83) (8 6 57) (223 22 250) (21 3 62) (207 1 21) (233 246 42)
        (218 239 22) (203 64 252) (31 173 7) (248 74 149) (221 8 6) (123 49 65) (45 0 68) (191 13 184) (56 8 210)
        (94 226 47) (247 49 47) (93 5 245) (74 23 123) (229 38 6) (214 28 240) (185 7 178) (147 8 32) (47 3 73)
        (21 4 156) (96 119 56) (57 45 228) (158 92 93) (210 2 213) (19 10 142) (35 48 38) (77 2 160) (187 8 37)
        (17 20 3) (63 3 241) (66 56 37) (87 120 80) (87 3 100) (171 9 188) (185 146 180) (122 6 115) (153 136 42)
        (168 244 37) (79 75 105) (82 186 1) (137 4 57) (253 148 228) (37 63 135) (56 2 127) (16 87 201) (165 204 255)
        (110 63 141) (39 92 3) (227 55 239) (31 36 76) (16 4 131) (222 230 177) (5 2 135) (211 127 98) (162 8 125)
        (174 166 224) (90 11 40) (7 5 68) (136 161 26) (198 77 158) (215 5 54) (147 182 32) (54 34 233) (67 75 144)
        (140 57 14) (123 2 163) (147 4 111) (7 242 79) (63 8 62) (52 9 153) (56 6 61) (186 23 48) (217 151 248)
        (118 61 88) (31 106 252) (135 27 2) (200 8 31) (235 8 4) (22 15 160) (146 27 237) (125 4 149) (192 163 73)
        (242 53 185) (237 6 189) (71 7 174) (90 67 210) (115 40 141) (12 96 127) (207 10 117) (26 216 74) (39 3 127)
        (123 1 96) (89 0 34) (81 195 154) (50 69 21) (19 64 101) (192 108 58) (79 19 238) (131 2 129) (21 185 231)
        (4 184 66) (213 8 96) (254 26 15) (113 110 233) (114 43 110) (50 85 254) (47 15 93) (207 74 68) (74 9 46)
        (135 32 205) (45 4 162) (37 4 59) (175 8 112) (214 179 92) (195 6 214) (31 0 58) (153 165 122) (15 98 99)
        (207 245 190) (24 9 13) (201 30 12) (239 90 193) (28 50 67) (54 64 5) (195 0 118) (8 24 180) (60 11 34)
        (229 96 167) (163 2 202) (214 2 129) (95 96 239) (63 3 244) (185 61 124) (2 9 205) (173 75 182) (214 8 248)
        (171 173 18) (108 235 31) (46 48 185) (30 116 111) (120 1 215) (170 89 250) (171 3 164) (251 63 115) (6 232 207)
        (253 182 85) (21 24 187) (90 34 168) (9 158 167) (52 3 247) (215 23 124) (214 9 146) (68 1 77) (229 3 155)
        (238 101 25) (161 0 71) (90 30 129) (99 76 176) (52 32 30) (121 0 77) (40 95 240) (63 71 230) (134 45 231)
        (221 3 198) (152 3 141) (79 32 164) (71 16 193) (77 8 30) (47 6 66) (9 138 86) (116 60 18) (248 204 171)
        (118 2 78) (60 212 200) (28 28 16) (175 77 153) (7 20 138) (146 6 175) (117 12 13) (136 81 105) (235 5 172)
        (75 2 138) (165 66 42) (213 68 180) (10 62 84) (228 58 56) (117 109 169) (27 200 144) (243 9 80) (202 46 87)
        (227 36 13) (9 55 68) (72 29 36) (215 2 144) (71 2 151) (11 94 162) (1 47 151) (187 42 186) (113 218 226)
        (240 92 113) (48 216 184) (191 2 3) (175 8 79) (19 4 184) (4 5 244) (82 63 248) (245 74 193) (2 48 17) (145 8 207)
        (22 7 79) (111 236 186) (250 249 121) (90 98 167) (153 86 252) (53 29 10) (38 98 199) (199 93 214) (147 43 104)
        (31 2 195) (255 3 228) (94 182 143) (94 69 134) (184 3 16) (39 212 216) (4 53 121) (209 4 81) (211 9 159)
        (99 4 155) (137 67 147) (32 9 76) (149 255 53) (68 0 140) (79 20 28) (44 232 161) (254 207 176) (176 5 42)
        (181 3 145) (56 9 249) (96 82 118) (155 35 103) (235 201 100) (154 8 203) (255 63 25) (127 39 37) (60 12 210)
        (52 105 45) (230 84 26) (8 3 46) (63 59 109) (28 83 195) (112 0 161) (233 6 129) (187 1 205) (85 59 165)
        (36 1 59) (169 6 194) (25 12 104) (71 39 117) (43 53 187) (145 97 138) (24 68 27) (145 5 164) (144 59 229)
        (11 6 48) (203 39 195) (212 3 93) (218 177 166) (23 153 19) (79 16 86) (46 79 248) (233 244 152) (103 8 16)
        (217 1 198) (6 95 59) (40 23 59) (184 233 57) (84 85 217) (42 209 66) (187 1 242) (50 5 223) (54 2 200)
        (94 202 124) (171 244 220) (1 232 149) (206 63 41) (203 5 39) (132 44 22) (68 7 28) (141 6 6) (171 213 173)
        (170 23 89) (74 78 236) (62 12 215) (237 81 25) (125 160 44) (189 168 134) (213 23 74) (87 2 248) (202 87 168)
        (10 2 55) (75 6 102) (204 62 168) (158 55 5) (208 207 227) (226 1 172) (154 18 41) (115 0 27) (77 0 131)
        (239 213 92) (145 56 134) (93 178 24) (118 60 61) (93 2 48) (99 103 163) (30 37 178) (199 41 82) (204 238 232)
        (56 60 252) (95 204 245) (218 87 90) (131 62 15) (116 95 158) (1 4 20) (78 138 195) (238 56 41) (6 6 144)
        (1 95 51) (52 131 181) (34 48 136) (35 45 222) (200 65 57) (107 85 21) (176 86 188) (176 79 86) (238 188 90)
        (219 57 84) (193 44 114) (114 9 46) (23 119 164) (188 62 24) (196 208 222) (152 47 238) (216 2 128) (221 79 206)
        (210 0 227) (244 80 15) (52 61 164) (242 113 152) (121 151 52) (222 4 143) (140 12 27) (237 9 42) (38 41 95)
        (42 7 90) (207 6 236) (219 8 92) (85 148 57) (18 5 48) (116 56 54) (77 5 135) (63 9 225) (56 3 113) (24 1 136)
        (219 49 31) (232 14 192) (22 154 223) (79 22 146) (128 27 215) (119 140 209) (183 164 190) (150 13 225)
        (125 4 33) (201 96 94) (239 77 117) (79 8 152) (229 17 171) (68 170 195) (199 18 228) (166 237 245) (101 64 20)
        (229 8 208) (215 67 111) (236 185 182) (252 29 52) (124 32 16) (11 67 157) (93 8 90) (118 51 188) (94 117 153)
        (121 6 81) (246 107 193) (53 111 165) (222 29 97) (124 2 147) (121 93 109) (208 33 247) (109 2 187) (151 204 113)
        (71 52 118) (98 28 189) (116 28 27) (71 87 223) (232 26 234) (189 72 136) (210 15 78) (15 2 80) (239 95 223)
        (215 6 134) (110 30 71) (216 97 125) (10 8 213) (132 22 171) (215 151 53) (42 50 126) (212 45 20) (156 9 194)
        (212 253 149) (165 9 60) (201 70 82) (246 214 178) (190 218 212) (119 220 97) (93 41 114) (211 0 194) (91 91 179)
        (202 50 184) (145 32 15) (98 89 60) (47 172 27) (0 5 44) (114 60 239) (46 229 191) (179 75 68) (109 58 174)
        (229 21 141) (133 9 163) (0 15 10) (143 188 149) (152 90 93) (52 98 205) (161 3 15) (93 8 240) (166 9 251)
        (234 5 42) (113 6 115) (162 69 170) (2 49 108) (136 5 212) (173 184 218) (97 9 189) (119 36 20) (87 36 32)
        (190 255 205) (5 8 94) (109 11 16) (20 44 58) (123 148 11) (220 61 135) (71 47 17) (229 128 197) (26 38 127)
        (247 5 110) (167 137 74) (81 31 211) (204 8 111) (29 75 147) (12 175 248) (222 46 128) (235 36 245) (186 63 183)
        (253 70 91) (212 6 131) (246 8 99) (127 4 19) (210 36 22) (70 180 228) (132 16 43) (169 4 204) (122 4 40)
        (104 6 206) (146 6 21) (84 8 16) (114 9 159) (120 213 111) (181 171 153) (129 7 62) (119 196 102) (164 223 250)
        (220 145 184) (84 3 54) (150 87 225) (253 65 123) (176 2 83) (121 6 99) (111 7 247) (5 206 228) (141 9 43)
        (19 98 64) (243 5 231) (50 11 123) (192 34 217) (94 77 144) (232 226 146) (70 95 204) (202 0 142) (23 54 78)
        (27 63 48) (160 6 67) (239 57 45) (174 1 52) (96 109 241) (121 201 196) (108 146 91) (159 197 231) (129 206 222)
        (173 7 78) (236 28 56) (88 77 44) (207 48 108) (175 75 187) (217 168 187) (236 78 228) (59 60 85) (40 85 215)
        (109 1 204) (238 5 174) (20 51 4) (67 93 193) (134 5 55) (89 6 44) (50 65 115) (70 49 160) (116 38 96) (155 23 80)
        (227 78 15) (3 73 30) (32 172 1) (75 15 36) (224 6 207) (9 4 148) (150 77 155) (14 1 21) (95 4 125) (40 139 148)
        (146 8 217) (55 0 133) (96 56 117) (63 233 221) (179 8 198) (165 76 40) (254 229 2) (50 30 27) (18 92 222)
        (218 45 162) (65 118 20) (28 13 178) (83 79 32) (193 207 201) (119 20 26) (76 7 130) (175 11 12) (75 43 66)
        (222 9 212) (120 2 218) (88 47 119) (48 32 94) (4 1 105) (69 9 188) (189 1 93) (149 248 156) (243 238 61)
        (172 58 121) (250 8 121) (202 6 126) (222 89 0) (175 9 224) (140 61 111) (220 51 85) (178 7 171) (181 9 1)
        (192 66 254) (42 18 210) (90 5 74) (111 125 33) (170 1 72) (246 247 166) (46 7 200) (78 253 72) (101 4 0)
        (56 63 64) (84 15 9) (159 17 56) (20 0 107) (225 3 42) (103 56 61) (210 24 71) (211 9 193) (230 28 6) (113 77 6)
        (92 3 146) (247 6 82) (196 8 167) (53 98 168) (132 5 31) (122 2 174) (172 2 220) (34 86 14) (120 143 30)
        (227 6 2) (178 2 122) (145 68 136) (83 180 83) (253 71 95) (129 131 20) (162 17 174) (157 3 220) (107 7 94)
        (170 9 109) (209 99 35) (66 9 81) (98 61 36) (172 10 70) (145 6 88) (108 9 254) (2 133 170) (108 154 2)
        (113 9 54) (72 36 144) (82 43 56) (200 37 137) (143 3 239) (33 104 3) (254 183 37) (31 4 176) (40 67 19)
        (76 4 91) (114 67 24) (250 64 59) (214 2 145) (130 230 161) (114 8 225) (90 49 200) (155 6 63) (215 75 14)
        (246 6 154) (244 0 178) (115 4 47) (0 124 7) (168 90 28) (78 0 204) (129 2 127) (62 6 7) (69 23 150) (125 104 138)
        (139 41 132) (115 92 204) (228 62 15) (55 15 133) (85 71 1) (63 9 119) (238 202 199) (208 1 223) (202 45 204)
        (125 44 165) (43 6 73) (85 22 211) (213 8 175) (162 15 246) (224 7 186) (169 231 128) (239 83 28) (38 99 176)
        (139 58 44) (75 26 194) (48 70 164) (13 5 59) (75 8 83) (202 5 108) (106 2 73) (106 3 121) (226 30 220)
        (214 3 164) (46 108 131) (25 102 156) (205 164 27) (177 73 106) (211 52 84) (102 246 254) (139 41 21) (81 47 42)
        (101 76 119) (21 7 87) (121 76 217) (45 6 24) (197 0 207) (140 2 180) (246 247 185) (118 90 235) (100 114 183)
        (191 195 249) (225 66 188) (123 59 104) (140 8 72) (132 28 206) (37 56 155) (118 51 143) (4 72 149) (50 24 250)
        (74 6 88) (141 48 52) (171 150 113) (24 0 216) (142 205 239) (202 89 128) (124 60 174) (110 37 90) (50 9 5)
        (156 97 123) (228 9 173) (146 0 50) (226 3 105) (43 127 25) (154 3 75) (244 95 243) (87 65 46) (85 151 1)
        (152 235 67) (84 103 169) (45 1 179) (85 55 104) (163 13 219) (103 3 240) (174 8 90) (75 8 57) (62 46 244)
        (99 18 196) (135 0 148) (43 210 96) (124 75 95) (252 6 220) (207 4 69) (254 6 235) (235 0 255) (242 5 46)
        (178 1 99) (139 1 205) (122 79 249) (24 45 24) (7 11 218) (61 36 237) (63 199 158) (9 111 237) (23 233 125)
        (185 74 209) (161 5 153) (198 8 8) (186 7 51) (217 69 208) (1 64 166) (163 0 253) (199 5 160) (129 42 186)
        (194 58 145) (106 4 145) (17 107 238) (204 94 88) (168 8 133) (38 87 136) (82 214 135) (87 59 192) (95 58 99)
        (69 5 247) (177 0 59) (120 179 32) (25 168 219) (117 88 203) (205 116 253) (245 29 106) (131 7 37) (214 7 77)
        (183 6 161) (66 6 207) (6 76 112) (116 159 54) (217 69 170) (153 86 150) (51 0 252) (66 8 227) (35 15 120)
        (20 59 126) (46 55 196) (189 93 81) (39 6 227) (83 98 11) (77 8 16) (108 144 180) (35 0 204) (54 60 4) (83 199 38)
        (22 53 243) (117 235 183) (5 95 46) (27 37 57) (107 194 121) (153 8 213) (179 217 9) (244 3 125) (247 1 59)
        (152 128 58) (113 62 152) (78 6 218) (97 7 214) (232 1 196) (179 83 225) (193 4 62) (188 204 5) (186 102 112)
        (179 66 131) (250 252 132) (61 1 118) (116 67 250) (186 129 69) (222 2 55) (6 188 94) (137 96 4) (122 28 68)
        (79 134 120) (52 38 3) (122 99 106) (244 21 48) (83 67 160) (191 6 240) (44 93 89) (94 80 216) (236 75 173)
        (128 11 136) (50 0 164) (92 2 102) (39 2 146) (74 19 166) (63 84 41) (119 38 172) (170 37 215) (227 94 38)
        (187 255 44) (193 65 246) (59 218 162) (226 4 76) (164 3 78) (114 88 19) (171 2 135) (255 7 172) (221 23 103)
        (79 3 216) (91 9 163) (164 8 53) (193 3 158) (210 98 222) (77 55 236) (9 20 40) (67 127 55) (150 2 66) (80 6 253)
        (26 84 137) (236 206 241) (111 62 89) (60 108 50) (35 1 174) (180 6 247) (116 133 74) (165 45 86) (78 5 201)
        (7 92 242) (77 4 165) (74 5 129) (154 8 217) (101 96 138) (203 78 129) (222 109 56) (38 107 91) (76 40 223)
        (136 216 127) (24 95 149) (65 32 99) (80 77 26) (178 51 193) (140 157 132) (220 0 137) (63 232 156) (183 192 130)
        (64 80 39) (55 9 151) (139 6 56) (39 29 83) (227 2 49) (21 237 164) (162 9 50) (203 96 187) (82 4 97) (126 1 71)
        (35 30 8) (10 9 255) (76 1 164) (98 2 185) (73 100 136) (230 10 59) (221 9 152) (171 196 252) (194 8 242)
        (71 7 30) (71 72 145) (54 105 117) (95 100 136) (122 74 4) (53 237 96) (107 74 239) (190 0 103) (101 24 81)
        (95 4 188) (162 241 105) (218 71 114) (213 0 238) (171 6 210) (170 73 239) (127 213 135) (89 85 180) (185 51 66)
        (67 30 229) (248 4 156) (34 219 186) (26 85 25) (243 137 97) (115 58 121) (19 20 240) (67 151 99) (47 97 148)
        (81 43 121) (20 84 0) (103 3 3) (233 5 232) (153 0 23) (244 4 84) (180 7 214) (80 69 81) (116 1 98) (49 13 123)
        (154 97 186) (33 87 204) (113 89 101) (43 194 6) (138 231 13) (4 82 201) (25 2 97) (214 88 161) (86 6 4)
        (226 72 28) (13 88 216) (225 87 99) (235 0 220) (46 92 151) (39 111 85) (119 3 81) (199 4 164) (164 3 68)
        (130 7 217) (39 7 71) (26 1 163) (25 123 8) (7 9 249) (72 94 239) (108 162 92) (17 7 176) (119 60 33) (84 7 164)
        (154 220 58) (15 0 29) (12 192 85) (47 4 110) (103 15 89) (152 34 47) (142 8 58) (245 90 188) (211 81 101)
        (242 16 226) (162 92 2) (41 93 98) (146 52 41) (158 58 137) (193 106 252) (76 4 235) (97 8 54) (30 3 29)
        (151 62 121) (194 7 164) (108 76 247) (191 9 124) (123 3 154) (115 89 134) (159 57 31) (242 73 78) (79 9 95)
        (35 84 36) (92 2 136) (122 165 216) (227 56 16) (184 99 142) (40 3 94) (252 2 230) (13 18 96) (219 4 21)
        (157 5 173) (158 7 238) (46 219 137) (146 4 237) (254 6 225) (200 16 77) (246 9 248) (114 47 105) (111 4 18)
        (2 6 170) (71 238 77) (103 6 77) (113 9 32) (93 47 91) (9 58 178) (71 16 160) (163 74 22) (68 5 31) (127 29 162)
        (80 4 38) (74 4 38) (179 3 118) (201 25 177) (72 9 47) (218 173 148) (252 251 94) (191 50 91) (151 18 46)
        (25 59 34) (23 92 151) (90 6 113) (240 34 201) (230 10 31) (5 63 125) (133 50 205) (55 9 23) (21 152 188)
        (102 41 29) (167 55 129) (36 1 222) (198 95 123) (10 142 144) (171 93 215) (31 93 213) (189 93 47) (153 1 28)
        (125 52 186) (16 3 132) (243 204 159) (207 6 159) (44 36 88) (33 41 59) (191 90 103) (45 60 131) (155 2 112)
        (245 6 8) (5 19 206) (83 6 26) (40 5 201) (222 2 188) (54 196 155) (63 82 160) (158 1 62) (11 2 18) (115 26 4)
        (155 28 26) (167 2 77) (73 8 58) (92 66 210) (72 33 87) (78 5 211) (236 115 228) (62 2 42) (204 6 226) (40 59 241)
        (203 89 87) (244 57 97) (41 9 94) (177 18 197) (63 3 205) (40 1 199) (209 0 132) (186 128 158) (60 6 13)
        (191 88 194) (18 36 112) (15 0 37) (25 8 100) (196 57 6) (205 73 145) (201 6 41) (182 48 199) (146 7 206)
        (138 31 186) (90 35 5) (95 9 179) (235 168 113) (196 8 155) (92 31 146) (125 1 81) (29 39 127) (16 9 121)
        (113 44 109) (98 21 240) (4 3 140) (0 0 61) (44 4 224) (203 18 185) (134 1 176) (214 25 236) (180 41 109)
        (151 57 205) (46 73 107) (42 82 41) (80 62 112) (118 7 17) (190 0 165) (233 7 148) (74 95 176) (223 41 79)
        (13 82 48) (105 8 170) (93 119 246) (100 229 155) (69 226 96) (97 59 211) (193 127 51) (177 12 108) (122 5 151)
        (140 35 254) (148 11 245) (229 9 65) (248 194 86) (215 4 254) (100 51 11) (38 99 102) (65 38 66) (30 0 182)
        (147 3 155) (185 238 63) (171 92 254) (47 9 3) (254 3 228) (28 4 234) (176 38 187) (74 5 156) (244 46 114)
        (135 1 81) (213 36 124) (74 97 72) (140 48 208) (152 64 169) (142 59 12) (133 52 176) (254 47 28) (26 17 232)
        (129 4 189) (234 1 229) (142 161 57) (220 202 195) (197 3 59) (0 2 77) (94 224 20) (223 254 177) (16 109 250)
        (232 60 142) (20 70 62) (149 84 8) (24 68 88) (253 44 82) (48 21 124) (154 2 219) (71 5 15) (102 60 170)
        (157 141 207) (181 249 88) (178 8 204) (206 92 243) (102 31 216) (95 4 174) (134 132 101) (85 93 25) (139 6 167)
        (196 3 173) (2 8 239) (18 31 229) (3 58 144) (42 1 234) (45 2 70) (136 1 66) (192 42 220) (18 89 31) (214 6 49)
        (198 1 214) (150 30 74) (75 93 0) (19 127 196) (37 96 164) (69 9 196) (227 45 172) (181 142 74) (78 2 75)
        (110 5 5) (46 7 36) (87 1 186) (22 9 82) (164 3 176) (226 72 182) (13 160 107) (172 22 172) (157 25 8) (43 203 194)
        (42 0 217) (80 154 26) (208 124 30) (150 157 178) (125 61 109) (151 1 5) (114 6 161) (84 8 120) (220 96 109)
        (98 92 12) (255 79 10) (115 7 242) (174 36 18) (143 6 126) (104 229 162) (140 2 81) (195 7 198) (117 43 210)
        (167 164 163) (63 75 110) (184 90 189) (169 181 228) (38 5 56) (3 240 17) (130 72 10) (51 9 100) (163 191 242)
        (162 3 33) (183 112 58) (227 17 198) (168 75 235) (86 212 160) (138 4 10) (221 6 209) (157 47 207) (90 225 33)
        (25 91 37) (174 17 2) (165 93 58) (12 140 191) (38 7 11) (205 1 9) (116 115 30) (21 2 110) (179 1 223) (169 95 118)
        (74 22 30) (159 18 32) (182 8 200) (223 72 98) (24 0 216) (95 78 28) (180 198 1) (133 124 67) (166 84 113)
        (197 16 91) (56 22 254) (142 3 21) (219 2 76) (176 5 28) (27 91 179) (232 213 38) (138 32 47) (120 74 126)
        (166 93 209) (208 6 87) (60 2 126) (222 64 187) (183 143 134) (1 159 147) (159 0 227) (45 113 71) (51 7 13)
        (11 17 187) (10 6 15) (54 133 135) (204 1 43) (48 19 206) (71 4 37) (134 118 196) (202 165 95) (98 80 64)
        (21 5 168) (123 47 226) (93 171 156) (118 169 185) (128 46 94) (94 72 33) (76 88 18) (113 4 202) (249 249 174)
        (94 2 204) (201 5 216) (200 89 113) (243 211 236) (127 160 109) (119 94 244) (174 170 227) (162 77 235)
        (120 64 247) (177 23 171) (244 66 129) (54 0 142) (99 24 81) (133 184 235) (47 23 181) (78 22 124) (217 77 160)
        (154 137 158) (254 68 109) (208 4 94) (120 5 68) (89 69 72) (201 221 195) (118 4 151) (108 237 4) (194 27 61)
        (157 135 64) (59 16 136) (94 7 146) (59 229 195) (212 46 4) (169 6 165) (65 28 13) (113 31 113) (119 4 200)
        (17 78 193) (246 25 182) (216 204 34) (0 1 43) (247 255 57) (172 8 11) (2 56 31) (176 9 80) (140 99 175)
        (7 29 239) (42 49 31) (122 214 213) (23 3 123) (78 6 249) (16 4 139) (161 43 239) (140 193 1) (156 13 103)
        (115 172 76) (173 9 46) (201 122 48) (3 80 248) (221 79 178) (225 0 175) (119 7 174) (175 32 42) (60 8 173)
        (182 4 13) (199 20 191) (227 9 133) (65 90 220) (51 95 17) (28 1 67) (170 2 128) (117 99 217) (163 87 165)
        (0 0 219) (159 187 95) (100 2 29) (0 53 77) (245 72 80) (181 36 16) (159 180 112) (213 72 187) (207 116 235)
        (199 8 18) (123 23 61) (101 74 114) (226 214 211) (18 39 23) (187 1 122) (156 136 233) (181 235 65) (20 93 178)
        (198 195 188) (156 0 41) (173 35 103) (237 4 254) (97 1 207) (32 45 9) (22 4 198) (75 6 221) (220 124 206)
        (235 40 20) (147 82 211) (209 248 97) (214 3 161) (71 8 66) (35 9 1) (114 81 177) (213 13 139) (92 203 96)
        (56 6 125) (13 4 187) (64 84 165) (60 56 225) (13 31 34) (121 160 55) (184 233 118) (26 173 198) (42 63 153)
        (222 5 92) (91 33 109) (11 22 198) (108 61 12) (144 0 45) (12 2 64) (117 202 106) (185 161 40) (41 7 203)
        (172 228 82) (26 56 210) (84 168 241) (128 5 20) (241 68 99) (83 17 175) (84 167 38) (157 8 50) (195 78 243)
        (210 77 49) (199 2 142) (25 222 153) (249 5 181) (125 203 13) (107 8 78) (185 229 158) (77 188 135) (53 6 221)
        (211 158 156) (170 8 161) (34 150 142) (253 2 74) (106 4 63) (163 46 16) (122 19 17) (249 3 237) (216 7 213)
        (100 6 107) (247 7 117) (155 2 13) (240 63 190) (178 7 210) (197 254 79) (230 42 155) (84 7 146) (96 92 118)
        (192 11 31) (236 17 6) (1 6 215) (145 6 18) (251 26 17) (44 3 85) (70 4 151) (53 1 173) (77 112 54) (237 9 249)
        (151 91 28) (20 62 223) (159 5 128) (7 8 110) (213 2 29) (223 5 88) (12 80 60) (233 122 249) (202 213 79)
        (242 6 178) (142 7 231) (48 66 146) (120 47 205) (189 116 136) (206 20 161) (220 9 111) (54 52 117) (171 2 68)
        (62 23 162) (77 9 149) (189 1 215) (59 175 128) (58 99 27) (19 100 80) (181 44 224) (165 89 93) (251 78 222)
        (7 8 223) (213 29 253) (42 8 108) (73 8 208) (115 26 34) (120 122 101) (236 75 209) (62 0 66) (79 46 79)
        (119 4 190) (162 24 5) (62 180 132) (88 30 123) (175 1 38) (179 133 77) (3 21 152) (168 39 27) (242 255 177)
        (31 7 84) (88 209 165) (168 15 94) (19 163 238) (17 190 151) (91 29 211) (254 58 85) (145 145 168) (218 229 33)
        (13 4 146) (242 8 16) (142 129 223) (174 9 154) (110 6 240) (220 13 217) (155 244 108) (22 1 33) (132 4 155)
        (249 43 236) (246 89 167) (204 18 10) (16 7 30) (148 77 244) (46 1 252) (109 1 234) (14 5 252) (134 110 141)
        (118 6 196) (58 69 152) (135 60 200) (22 6 147) (171 6 16) (214 97 163) (162 69 132) (99 8 141) (178 6 158)
        (167 209 86) (164 50 36) (225 5 180) (132 110 188) (240 97 13) (153 17 242) (133 1 197) (253 43 223) (188 2 116)
        (152 5 252) (233 74 102) (118 164 151) (172 8 230) (179 49 49) (23 135 107) (192 178 130) (55 27 157) (195 126 178)
        (51 185 80) (98 1 154) (118 27 110) (157 18 152) (163 5 185) (180 221 252) (111 2 108) (41 191 249) (235 70 110)
        (18 17 161) (182 28 13) (103 7 33) (152 60 94) (132 229 160) (111 136 197) (52 4 171) (251 135 87) (212 7 64)
        (32 254 164) (175 1 165) (186 4 114) (21 7 219) (124 104 172) (33 7 63) (155 82 130) (144 3 158) (37 10 174)
        (235 39 184) (188 101 112) (77 15 255) (205 22 155) (195 3 109) (160 3 85) (254 50 29) (231 23 83) (171 8 20)
        (146 68 159) (148 90 209) (193 1 186) (177 6 205) (204 39 254) (193 88 163) (135 44 192) (117 3 120) (2 138 227)
        (8 175 97) (179 53 237) (116 4 241) (40 0 6) (159 6 219) (244 227 165) (12 30 5) (237 0 132) (180 123 134)
        (47 23 50) (106 44 40) (240 1 55) (58 92 246) (244 201 3) (54 12 14) (63 80 93) (48 25 105) (221 7 151)
        (25 1 114) (87 24 124) (162 195 66) (98 93 202) (87 1 46) (80 187 93) (163 6 112) (149 88 234) (116 9 235)
        (215 6 5) (108 51 154) (61 32 191) (179 1 44) (188 9 151) (111 5 158) (122 6 255) (40 9 161) (213 26 170)
        (137 8 205) (235 143 152) (143 151 153) (108 3 142) (2 59 43) (246 0 182) (146 56 153) (115 6 86) (178 90 10)
        (218 27 196) (220 41 128) (63 2 97) (84 92 58) (100 1 177) (188 19 15) (16 42 252) (15 4 107) (99 199 174)
        (231 5 219) (55 4 208) (136 143 6) (115 4 251) (255 5 153) (91 142 232) (220 5 238) (224 1 35) (198 53 147)
        (3 91 32) (137 39 110) (199 4 17) (221 51 135) (126 23 234) (175 40 90) (178 6 205) (118 84 218) (124 222 136)
        (219 3 189) (249 7 11) (220 33 163) (85 7 163) (129 4 141) (99 5 193) (188 74 204) (156 36 116) (77 2 173)
        (164 2 22) (129 57 117) (47 84 140) (38 2 167) (179 70 94) (114 112 113) (199 91 113) (229 43 204) (226 6 75)
        (93 195 24) (173 4 101) (103 2 61) (82 54 99) (139 64 133) (98 48 101) (246 5 135) (152 7 156) (59 50 5)
        (92 199 85) (36 2 246) (104 3 68) (37 8 119) (87 83 178) (145 14 149) (10 1 249) (173 2 144) (92 10 126)
        (38 89 129) (231 63 233) (17 4 147) (179 7 185) (204 82 64) (110 108 217) (142 6 94) (223 114 55) (65 11 22)
        (134 91 130) (136 57 214) (191 0 170) (18 9 39) (196 36 44) (128 27 6) (222 175 157) (32 61 153) (244 20 56)
        (91 5 135) (155 7 107) (167 19 126) (27 88 141) (76 29 23) (184 2 176) (228 33 162) (144 4 176) (11 81 115)
        (199 3 111) (50 83 153) (255 140 119) (210 6 116) (162 5 210) (245 5 210) (249 199 132) (89 7 88) (23 2 11)
        (123 2 172) (108 38 35) (255 5 216) (151 29 249) (227 69 165) (255 230 89) (197 168 93) (232 188 89) (194 122 219)
        (133 7 117) (189 15 195) (166 0 155) (252 73 240) (191 91 238) (68 31 209) (90 0 21) (218 2 252) (88 166 95)
        (27 208 1) (14 3 30) (133 247 62) (227 101 120) (104 25 57) (152 13 81) (129 68 20) (244 74 39) (110 5 60)
        (91 7 128) (56 7 113) (129 82 205) (86 3 16) (200 113 7) (115 240 233) (239 212 209) (33 1 11) (42 121 72)
        (193 225 47) (146 148 99) (13 6 184) (130 77 105) (171 2 214) (70 9 193) (46 98 195) (225 7 181) (173 69 167)
        (28 40 22) (42 32 167) (222 128 55) (3 1 50) (199 8 124) (161 97 21) (156 211 23) (184 0 194) (171 1 162)
        (157 128 197) (215 64 83) (29 90 106) (53 9 255) (36 55 170) (57 57 143) (207 67 217) (35 87 38) (176 22 10)
        (52 80 140) (154 139 248) (184 91 58) (12 63 199) (61 132 13) (57 227 109) (159 8 27) (128 50 206) (234 75 176)
        (0 89 215) (44 131 125) (69 52 11) (27 84 255) (46 20 48) (235 240 173) (59 209 112) (127 92 27) (173 6 74)
        (235 201 132) (8 21 2) (250 39 210) (169 2 87) (74 63 37) (16 78 66) (128 227 208) (43 118 144) (159 6 177)
        (238 32 215) (61 41 124) (137 73 170) (113 7 137) (179 252 157) (245 89 94) (15 4 180) (15 30 166) (237 26 220)
        (103 52 24) (95 157 52) (214 145 97) (84 62 142) (96 7 238) (201 23 62) (70 91 38) (228 4 43) (244 39 68)
        (108 7 65) (79 19 150) (127 4 9) (67 4 187) (207 23 242) (3 161 232) (38 44 217) (122 7 42) (57 2 221) (166 9 13)
        (144 9 121) (147 95 93) (239 7 5) (133 66 81) (83 35 141) (176 32 190) (24 62 129) (95 48 221) (160 48 71)
        (131 52 84) (74 85 0) (235 7 35) (13 1 50) (219 1 104) (56 82 188) (137 89 104) (75 3 183) (144 36 218)
        (255 40 206) (81 108 154) (251 2 236) (184 6 154) (169 91 180) (143 143 198) (149 244 75) (60 72 231) (70 196 172)
        (69 2 99) (65 72 200) (242 5 27) (207 88 17) (116 2 95) (108 6 12) (199 25 23) (92 5 245) (8 24 105) (209 0 57)
        (196 31 95) (108 192 120) (62 46 138) (33 249 250) (232 50 21) (181 59 86) (31 181 246) (152 68 91) (156 6 232)
        (175 6 55) (124 7 68) (172 4 202) (108 84 131) (221 159 211) (10 19 74) (46 117 69) (233 53 198) (114 49 227)
        (56 213 48) (172 8 73) (8 98 113) (30 8 19) (177 97 233) (70 57 124) (183 9 41) (241 4 108) (14 0 33) (81 62 173)
        (120 0 64) (110 13 204) (220 4 38) (60 3 169) (61 1 221) (115 2 33) (94 70 243) (16 6 242) (90 9 137) (74 156 186)
        (112 6 235) (26 7 169) (37 41 0) (27 3 219) (189 9 45) (6 221 43) (114 183 54) (237 64 240) (138 8 164)
        (153 2 226) (162 63 94) (230 75 16) (175 19 126) (146 49 134) (236 58 1) (18 3 97) (47 147 80) (28 27 151)
        (167 47 254) (14 102 226) (252 252 120) (48 196 133) (59 2 36) (141 217 31) (41 2 131) (49 75 101) (129 1 40)
        (133 2 254) (19 165 2) (160 75 43) (252 62 161) (50 57 115) (213 8 18) (115 29 49) (139 3 15) (95 56 63)
        (179 76 100) (119 135 127) (248 0 150) (171 42 145) (59 78 159) (153 144 90) (32 40 149) (251 5 209) (90 4 251)
        (175 91 244) (210 73 218) (197 0 66) (47 9 25) (175 93 72) (193 42 120) (231 77 78) (20 87 105) (226 3 65)
        (80 39 112) (239 9 160) (150 208 176) (26 229 116) (198 99 50) (205 1 82) (86 90 176) (44 21 36) (166 190 97)
        (145 45 98) (147 7 181) (226 7 205) (18 4 87) (208 0 11) (233 186 195) (244 85 175) (146 7 92) (62 9 232)
        (249 45 157) (43 1 244) (247 8 182) (51 37 44) (239 202 125) (126 113 227) (65 16 89) (18 28 148) (236 35 98)
        (22 9 199) (12 242 92) (245 11 50) (115 8 67) (132 3 214) (250 78 182) (79 1 131) (53 60 103) (39 52 190)
        (226 7 253) (159 41 201) (152 87 62) (185 2 145) (160 12 72) (163 9 149) (48 5 95) (202 2 135) (43 2 160)
        (230 87 31) (210 1 140) (79 116 12) (181 168 70) (95 1 150) (179 164 72) (225 4 68) (192 58 237) (19 91 57)
        (197 54 139) (165 62 130) (151 4 157) (155 241 111) (186 2 23) (90 74 57) (95 7 153) (252 113 148) (213 8 134)
        (66 82 220) (6 39 0) (224 9 173) (254 2 39) (112 1 100) (142 92 152) (86 228 197) (167 205 68) (53 246 216)
        (4 144 212) (201 0 4) (68 29 237) (99 90 223) (58 4 180) (238 218 5) (119 57 8) (69 6 4) (220 36 193) (254 1 228)
        (206 86 59) (238 214 166) (143 6 199) (14 75 120) (112 11 161) (239 69 223) (172 69 150) (204 81 172) (57 74 8)
        (36 5 151) (121 187 87) (104 74 26) (131 1 19) (70 24 13) (218 94 30) (171 2 121) (139 12 191) (255 177 170)
        (105 56 235) (84 47 161) (69 0 33) (140 1 62) (70 9 200) (18 124 204) (76 25 117) (49 1 222) (255 92 241)
        (83 2 118) (177 67 116) (25 2 249) (91 9 251) (5 3 215) (190 7 6) (1 54 15) (113 9 117) (238 15 79) (129 4 103)
        (221 216 193) (247 2 164) (85 6 134) (49 6 51) (231 213 30) (77 10 28) (50 16 36) (76 67 232) (93 209 109)
        (158 240 50) (230 98 245) (37 90 154) (43 0 189) (67 30 12) (244 190 0) (232 55 152) (243 4 60) (60 36 97)
        (194 193 245) (105 237 221) (182 9 150) (74 0 90) (59 0 0) (170 1 208) (52 90 27) (206 44 240) (210 83 4)
        (248 9 149) (130 29 165) (54 51 70) (125 238 171) (125 93 167) (136 143 9) (171 24 221) (88 47 170) (209 3 1)
        (236 78 59) (67 7 226) (27 3 242) (111 89 255) (231 49 208) (97 67 24) (142 213 44) (162 186 66) (7 227 216)
        (75 3 94) (103 164 176) (21 179 201) (122 7 30) (168 40 121) (171 13 56) (50 3 32) (238 59 30) (118 155 176)
        (18 7 140) (44 109 105) (247 160 187) (78 8 235) (60 0 50) (226 18 67) (90 24 80) (73 204 69) (146 8 155)
        (130 2 99) (226 116 54) (76 7 126) (51 5 62) (161 73 39) (109 43 235) (71 55 51) (252 7 192) (215 3 103)
        (48 45 155) (99 229 122) (88 9 4) (190 3 45) (48 0 21) (15 4 104) (151 61 233) (187 76 144) (106 7 215)
        (250 205 154) (96 87 236) (71 183 157) (194 3 108) (5 3 191) (18 3 2) (42 7 4) (229 50 139) (53 4 135) (177 150 196)
        (229 18 226) (219 89 149) (194 60 35) (178 69 150) (47 141 143) (89 8 163) (202 94 149) (123 2 182) (96 1 75)
        (68 161 7) (108 8 161) (243 117 187) (63 47 61) (118 4 181) (225 58 118) (196 42 238) (163 7 249) (40 168 212)
        (28 124 21) (180 7 22) (1 67 180) (221 6 93) (221 12 251) (94 208 144) (129 99 217) (173 90 62) (89 75 250)
        (78 7 10) (229 1 210) (73 62 244) (15 53 197) (211 0 222) (18 6 115) (239 91 40) (107 29 113) (50 2 13)
        (166 62 8) (48 32 245) (118 159 44) (42 11 30) (43 37 115) (40 78 237) (79 1 136) (21 155 2) (133 36 217)
        (229 88 87) (255 26 39) (185 3 237) (203 7 205) (151 7 151) (0 63 29) (147 18 145) (39 140 111) (228 46 242)
        (76 88 204) (24 41 228) (105 224 71) (174 9 114) (172 28 35) (21 225 23) (85 2 200) (157 1 192) (32 9 213)
        (108 0 128) (16 47 118) (215 6 116) (72 8 109) (71 0 162) (74 0 138) (213 6 122) (155 23 109) (180 84 84)
        (114 95 86) (234 92 58) (170 149 43) (226 25 113) (92 7 246) (15 195 245) (240 237 86) (214 1 106) (254 19 218)
        (213 4 182) (7 8 179) (113 60 14) (11 122 13) (138 2 210) (222 27 7) (174 206 71) (244 5 234) (15 137 134)
        (88 7 133) (241 8 243) (142 103 114) (9 95 151) (204 254 165) (152 13 39) (27 202 112) (95 201 66) (124 37 24)
        (184 35 253) (37 7 54) (61 76 197) (129 7 201) (238 8 183) (251 205 60) (90 54 34) (208 9 55) (62 165 38)
        (82 1 73) (59 21 189) (227 48 118) (38 4 113) (164 191 142) (120 3 70) (152 161 64) (25 219 122) (214 3 221)
        (30 4 56) (98 7 231) (92 9 211) (232 93 52) (169 20 40) (69 1 32) (188 9 53) (103 61 177) (133 44 44) (42 4 7)
        (167 61 252) (70 2 68) (111 1 109) (227 9 47) (40 64 59) (245 56 241) (190 5 233) (81 4 187) (154 3 52)
        (159 9 77) (14 160 130) (194 2 74) (247 53 217) (217 6 100) (18 99 22) (194 0 19) (235 4 47) (125 6 41)
        (99 9 194) (105 14 62) (9 136 11) (9 42 122) (238 8 11) (141 2 130) (227 2 81) (159 4 230) (107 0 102) (253 82 23)
        (48 58 98) (160 142 164) (202 62 240) (50 5 28) (1 185 219) (126 7 100) (201 2 10) (229 38 132) (2 48 172)
        (69 60 185) (153 122 97) (85 46 227) (6 54 29) (104 93 2) (132 57 148) (36 0 192) (0 69 195) (143 1 87)
        (27 157 74) (94 52 8) (64 78 99) (88 63 209) (179 32 51) (222 2 169) (252 33 252) (249 5 240) (199 53 1)
        (146 3 180) (214 21 93) (88 110 53) (47 3 15) (182 8 187) (47 37 153) (176 203 9) (45 8 82) (49 3 85) (60 0 123)
        (62 238 68) (241 59 241) (91 7 116) (210 209 191) (164 75 69) (15 4 28) (149 51 114) (139 2 99) (91 9 239)
        (228 99 37) (70 76 61) (133 5 17) (246 5 52) (217 103 253) (80 96 211) (95 209 2) (171 8 238) (10 6 61)
        (55 171 179) (108 4 22) (155 125 158) (117 2 144) (162 6 138) (210 36 108) (222 73 241) (107 83 250) (31 58 176)
        (77 204 255) (144 4 233) (80 7 0) (107 132 204) (223 159 1) (112 1 224) (177 16 110) (198 6 96) (156 34 13)
        (192 199 242) (89 7 2) (33 166 40) (238 9 209) (2 40 203) (10 7 163) (62 157 233) (21 5 183) (170 4 41)
        (233 6 182) (91 218 230) (68 10 170) (155 36 69) (102 1 188) (46 12 136) (19 2 175) (180 1 152) (104 23 35)
        (109 74 196) (165 22 188) (165 174 239) (154 33 250) (99 71 111) (3 5 142) (214 20 214) (144 143 161) (143 9 192)
        (54 186 221) (13 28 22) (127 2 231) (104 8 106) (41 191 222) (165 213 204) (34 8 153) (46 0 19) (8 47 87)
        (26 243 163) (217 0 35) (21 126 201) (111 21 14) (44 9 200) (186 237 38) (40 58 196) (22 171 157) (24 4 187)
        (132 75 41) (89 154 153) (62 7 20) (85 1 44) (137 2 132) (190 5 128) (82 248 219) (65 217 165) (193 226 105)
        (146 89 32) (198 232 41) (188 210 178) (43 8 154) (41 2 153) (127 7 214) (114 8 74) (73 2 191) (243 49 134)
        (247 8 83) (242 237 64) (53 66 120) (28 17 37) (228 172 108) (112 158 107) (62 9 55) (194 61 76) (78 2 198)
        (40 88 47) (11 219 206) (172 7 11) (125 34 243) (91 34 21) (133 95 24) (78 55 165) (48 1 44) (200 113 128)
        (42 3 0) (154 14 236) (54 15 159) (211 179 172) (82 30 141) (220 86 63) (161 0 161) (99 4 105) (53 38 107)
        (250 5 40) (229 139 73) (228 48 142) (147 134 248) (114 6 233) (176 9 78) (29 2 101) (89 157 110) (47 37 130)
        (240 2 94) (230 134 12) (212 250 141) (76 1 165) (129 6 203) (234 5 204) (14 42 72) (204 10 21) (156 7 129)
        (107 7 162) (62 93 36) (119 6 104) (49 40 187) (141 61 252) (244 0 233) (58 10 150) (176 72 71) (159 230 104)
        (157 5 221) (1 2 25) (63 131 245) (212 156 85) (255 11 252) (41 8 82) (54 52 118) (219 46 74) (25 176 185)
        (44 0 128) (62 92 109) (131 1 123) (197 3 118) (250 218 212) (234 6 196) (220 2 169) (23 7 211) (252 180 170)
        (35 181 170) (234 9 117) (165 0 241) (5 31 142) (61 9 58) (143 6 211) (81 8 216) (246 0 208) (126 191 255)
        (12 5 139) (139 2 146) (102 9 1) (131 3 66) (136 49 236) (223 5 181) (54 143 184) (60 19 123) (136 218 248)
        (180 37 41) (32 218 85) (158 45 77) (99 96 122) (193 3 208) (212 38 158) (15 4 12) (34 6 151) (132 81 109)
        (246 75 159) (238 195 32) (248 48 67) (231 29 124) (53 2 40) (65 36 36) (229 5 227) (238 3 231) (53 8 195)
        (139 2 241) (225 98 86) (133 124 67) (59 8 128) (189 254 176) (102 7 7) (197 92 102) (12 65 195) (172 40 154)
        (171 2 228) (193 144 11) (229 230 128) (69 38 11) (29 9 89) (119 68 91) (26 81 143) (131 232 119) (22 81 255)
        (124 27 13) (104 56 94) (210 161 81) (241 1 106) (206 56 44) (65 0 3) (110 84 219) (79 35 87) (160 64 166)
        (61 90 130) (109 160 198) (145 67 251) (82 25 163) (116 4 246) (97 6 224) (140 70 6) (160 89 142) (250 4 236)
        (6 6 53) (181 86 132) (210 129 237) (239 232 5) (144 6 233) (231 8 85) (81 45 214) (152 77 119) (138 4 50)
        (17 5 232) (82 0 92) (190 211 78) (157 72 126) (20 121 142) (230 78 200) (34 8 132) (10 51 200) (193 98 4)
        (192 73 80) (151 25 150) (34 63 230) (164 32 150) (160 45 211) (188 3 60) (71 2 201) (150 7 192) (37 1 131)
        (173 14 59) (173 2 231) (132 152 209) (25 1 13) (108 34 67) (209 54 3) (88 38 2) (113 74 151) (116 6 234)
        (91 36 15) (246 125 151) (205 25 255) (135 9 136) (88 7 112) (19 9 3) (4 13 210) (123 2 231) (71 29 177)
        (198 0 247) (132 2 74) (96 3 247) (80 86 225) (162 19 192) (126 9 136) (46 6 46) (182 183 191) (156 59 163)
        (111 63 249) (114 116 13) (47 24 96) (24 9 25) (31 204 177) (78 5 181) (29 233 118) (148 8 113) (131 48 37)
        (186 27 161) (139 4 55) (223 174 108) (164 8 237) (171 9 84) (229 131 174) (71 11 243) (161 9 68) (64 207 85)
        (129 1 122) (213 80 109) (210 226 46) (36 255 119) (108 13 232) (36 49 252) (86 190 148) (51 5 202) (211 4 42)
        (8 142 46) (254 3 175) (221 8 131) (12 95 11) (84 224 194) (31 8 68) (247 9 1) (182 38 148) (201 176 237)
        (156 0 160) (163 174 12) (207 80 179) (157 47 125) (127 2 10) (132 8 197) (18 1 239) (42 57 196) (119 41 32)
        (113 37 110) (84 60 140) (248 8 32) (108 200 15) (110 4 215) (244 4 250) (46 128 218) (0 2 32) (97 239 24)
        (31 161 235) (97 5 95) (110 23 125) (101 9 23) (185 10 155) (176 196 255) (104 69 216) (5 0 25) (28 9 127)
        (212 31 221) (85 7 147) (218 5 87) (30 1 80) (88 80 197) (141 88 73) (223 99 107) (140 12 153) (78 114 55)
        (85 7 141) (253 2 157) (252 47 189) (255 162 152) (79 227 81) (69 3 137) (93 7 190) (55 41 3) (92 164 150)
        (134 64 29) (254 41 68) (35 11 46) (70 6 170) (14 41 25) (131 48 224) (26 7 92) (228 0 113) (231 71 234)
        (58 190 185) (3 98 201) (42 5 123) (224 45 69) (191 45 192) (104 83 149) (23 88 242) (200 10 202) (228 94 25)
        (57 61 139) (177 34 193) (56 6 110) (102 4 167) (146 2 2) (158 95 139) (21 28 231) (39 8 3) (17 51 214)
        (200 8 20) (67 14 166) (39 60 243) (136 8 160) (120 74 117) (155 20 51) (94 204 203) (40 103 32) (189 159 18)
        (208 176 98) (134 3 157) (95 22 114) (154 97 156) (8 7 127) (195 178 141) (78 11 77) (206 3 190) (74 3 23)
        (117 8 122) (93 6 129) (5 5 233) (58 7 55) (52 9 154) (170 8 65) (133 6 53) (92 91 149) (84 7 150) (219 5 168)
        (224 4 93) (12 53 224) (219 4 217) (176 199 11) (186 187 117) (126 196 97) (120 67 251) (30 35 125) (63 2 176)
        (50 135 168) (81 3 115) (147 68 167) (43 42 180) (242 0 241) (120 7 156) (83 245 35) (51 69 227) (215 0 12)
        (87 113 207) (204 48 176) (203 93 244) (224 75 242) (31 4 145) (37 84 111) (205 15 182) (174 0 6) (54 55 154)
        (208 7 177) (24 73 153) (217 9 63) (79 81 230) (106 193 207) (103 7 50) (214 97 233) (182 51 212) (83 1 192)
        (147 21 207) (171 240 72) (61 253 104) (241 95 5) (71 78 97) (200 7 234) (99 43 3) (233 9 88) (191 54 41)
        (25 162 73) (74 5 115) (194 122 149) (24 53 172) (25 1 203) (148 120 172) (82 5 185) (61 7 231) (5 151 184)
        (205 65 79) (19 0 86) (212 75 29) (105 70 251) (182 9 183) (93 51 91) (80 54 240) (190 222 168) (9 7 74)
        (11 9 105) (242 5 32) (45 7 58) (80 6 31) (107 16 157) (179 26 33) (31 49 220) (25 35 238) (226 41 117)
        (174 1 190) (114 50 37) (228 4 19) (177 55 246) (51 3 249) (180 244 4) (130 56 224) (125 9 211) (113 241 187)
        (252 37 87) (251 5 216) (64 132 48) (161 85 13) (66 9 177) (176 4 87) (131 8 213) (121 35 51) (200 164 175)
        (138 9 206) (142 110 222) (144 1 197) (27 5 11) (3 70 228) (131 8 199) (88 188 240) (35 205 150) (123 3 67)
        (3 77 150) (7 2 119) (58 113 5) (114 1 159) (177 160 11) (46 6 20) (197 4 150) (138 7 20) (171 235 168)
        (89 13 118) (109 6 223) (225 44 33) (67 74 15) (137 7 155) (248 172 67) (214 239 50) (93 58 114) (239 112 225)
        (242 11 12) (98 8 101) (122 61 195) (143 2 238) (145 231 65) (74 1 21) (209 14 5) (57 98 7) (140 41 46)
        (206 6 151) (183 6 94) (238 25 254) (253 43 100) (82 45 23) (45 134 50) (0 25 83) (218 120 160) (127 46 203)
        (60 9 198) (253 19 25) (135 1 189) (45 53 245) (49 28 126) (51 8 20) (148 3 58) (55 5 147) (83 61 11) (215 89 244)
        (50 202 197) (151 5 47) (1 5 195) (116 69 243) (239 96 33) (83 9 59) (73 14 191) (23 8 82) (237 8 129) (139 54 1)
        (0 28 78) (43 12 182) (237 5 237) (173 20 242) (191 46 249) (185 0 232) (225 4 148) (48 9 203) (15 34 58)
        (192 143 222) (169 211 86) (191 178 46) (3 134 122) (171 5 166) (131 5 64) (12 91 239) (5 224 142) (86 1 167)
        (160 1 210) (60 39 59) (146 111 149) (18 5 223) (136 69 108) (206 53 112) (151 209 168) (17 110 55) (141 3 65)
        (33 17 126) (101 47 150) (236 2 134) (114 8 142) (175 42 22) (233 75 243) (212 193 55) (172 48 250) (223 131 42)
        (127 5 21) (28 221 16) (252 8 250) (66 53 73) (195 239 125) (177 10 35) (68 46 60) (204 11 154) (19 1 50)
        (68 90 13) (11 9 26) (236 157 33) (181 3 89) (5 34 36) (244 9 163) (115 8 8) (0 1 25) (18 74 158) (210 110 78)
        (148 103 28) (81 78 126) (148 114 181) (211 8 48) (72 158 118) (227 47 207) (27 151 88) (69 2 98) (67 182 232)
        (210 8 106) (102 136 67) (103 1 241) (91 196 92) (141 6 191) (139 5 8) (207 26 80) (102 168 128) (123 62 180)
        (6 8 177) (248 60 213) (158 47 198) (177 196 205) (79 196 49) (70 3 209) (36 66 186) (254 7 53) (19 98 96)
        (57 128 110) (222 200 248) (21 7 188) (229 4 111) (19 4 168) (115 253 148) (118 75 29) (159 8 152) (127 1 176)
        (95 3 107) (124 131 37) (251 7 237) (223 47 92) (239 1 67) (201 192 49) (60 94 209) (188 104 179) (177 13 214)
        (223 9 53) (172 1 173) (237 33 225) (115 90 4) (127 5 133) (101 51 135) (6 215 70) (173 1 154) (29 61 126)
        (220 0 9) (117 85 220) (17 3 220) (232 89 71) (63 253 17) (107 82 13) (70 73 222) (118 229 114) (63 70 79)
        (195 19 217) (110 2 129) (199 49 7) (250 35 104) (75 7 247) (248 202 3) (234 42 19) (235 1 37) (143 104 237)
        (75 61 252) (237 251 151) (246 8 144) (123 140 7) (239 14 254) (5 61 22) (159 6 204) (153 29 65) (195 2 73)
        (208 9 180) (191 45 106) (83 9 72) (149 60 34) (248 155 21) (183 73 253) (67 3 47) (154 3 162) (234 93 137)
        (209 77 71) (1 59 85) (48 1 64) (241 4 56) (232 20 244) (175 131 182) (0 218 83) (254 14 244) (113 188 140)
        (85 0 122) (38 26 47) (227 3 179) (105 9 62) (140 1 143) (208 135 190) (152 9 19) (146 231 70) (233 109 6)
        (93 136 228) (132 9 246) (148 190 75) (184 6 167) (41 225 154) (226 121 112) (190 93 212) (48 7 11) (113 30 68)
        (4 46 224) (23 58 176) (168 9 15) (49 142 166) (8 9 246) (42 33 41) (147 92 198) (34 75 97) (228 5 157)
        (247 46 164) (63 55 197) (28 7 49) (74 89 136) (189 7 80) (136 177 3) (48 249 254) (87 3 173) (107 8 231)
        (190 160 201) (55 83 250) (83 9 42) (167 4 184) (2 0 90) (16 111 167) (57 20 33) (104 5 42) (36 96 179)
        (163 5 192) (98 24 12) (9 8 166) (139 130 170) (151 63 175) (228 15 227) (232 14 223) (38 171 168) (18 210 148)
        (150 42 126) (192 26 167) (186 195 201) (111 9 33) (255 52 151) (96 7 6) (152 90 77) (38 14 129) (237 9 221)
        (203 84 239) (147 6 46) (50 58 126) (116 35 249) (8 148 124) (81 2 23) (226 8 123) (118 85 16) (37 58 130)
        (17 82 181) (115 40 17) (248 5 118) (236 46 180) (12 52 203) (126 72 11) (121 211 110) (85 203 156) (136 4 153)
        (131 5 80) (252 61 217) (250 51 239) (196 15 109) (107 3 44) (201 1 1) (44 27 168) (250 155 239) (221 157 70)
        (203 69 100) (95 7 121) (102 2 210) (235 4 251) (106 137 210) (200 118 244) (16 8 36) (213 6 31) (32 9 213)
        (232 34 211) (161 159 160) (62 8 95) (105 0 12) (116 9 207) (126 75 42) (34 141 14) (64 26 77) (19 3 180)
        (228 3 96) (104 13 66) (167 38 207) (110 57 17) (183 41 239) (20 48 119) (196 166 188) (124 216 138) (93 17 251)
        (84 43 122) (14 3 166) (42 29 10) (55 2 222) (31 83 236) (104 6 12) (52 33 230) (33 71 58) (72 52 127) (225 240 179)
        (53 34 218) (247 62 88) (125 45 164) (97 13 232) (71 2 248) (173 64 114) (236 0 93) (54 8 249) (90 6 245)
        (226 7 244) (38 9 168) (195 71 90) (70 0 17) (158 32 102) (129 56 51) (12 5 107) (229 8 216) (75 5 59) (131 13 95)
        (240 47 148) (206 4 84) (231 11 39) (126 95 9) (23 0 231) (25 132 240) (226 1 40) (96 9 71) (89 119 61)
        (161 236 208) (167 144 59) (157 13 153) (0 4 86) (184 241 136) (227 6 137) (64 71 254) (194 4 183) (115 16 228)
        (197 2 159) (96 91 177) (186 46 60) (84 198 87) (113 1 147) (228 3 149) (13 66 155) (163 27 247) (192 0 32)
        (37 47 3) (143 39 190) (73 56 121) (63 200 114) (213 118 19) (70 3 198) (16 7 215) (162 7 13) (69 21 32)
        (158 186 133) (147 90 205) (33 33 129) (100 10 94) (88 0 196) (187 9 225) (7 4 233) (86 71 29) (189 7 24)
        (226 8 219) (248 48 244) (240 29 129) (122 0 70) (109 97 31) (194 12 103) (203 114 77) (126 94 29) (172 28 189)
        (249 115 150) (118 43 115) (183 4 38) (39 41 70) (200 78 212) (79 17 20) (131 8 254) (159 174 187) (49 50 60)
        (232 92 153) (120 8 158) (204 133 123) (194 33 123) (57 22 78) (22 49 128) (137 42 69) (21 102 102) (20 9 76)
        (117 119 183) (235 146 37) (14 7 138) (173 6 231) (122 38 225) (115 42 171) (34 138 122) (85 106 4) (230 57 40)
        (28 1 93) (139 15 143) (95 9 213) (177 34 34) (88 1 137) (131 210 95) (190 41 74) (147 63 216) (182 152 241)
        (240 13 239) (132 224 58) (66 9 103) (117 7 88) (11 6 75) (82 52 42) (224 9 138) (200 153 124) (107 7 148)
        (242 91 123) (161 35 62) (177 88 182) (148 48 227) (140 254 35) (107 33 102) (237 30 84) (249 9 195) (121 29 135)
        (231 175 27) (139 90 245) (74 83 8) (65 16 12) (41 97 199) (229 6 40) (54 1 152) (132 14 205) (55 2 30)
        (91 10 129) (135 184 164) (48 8 168) (9 0 15) (192 217 80) (112 189 37) (202 145 2) (129 201 173) (38 212 188)
        (31 54 248) (42 73 102) (232 7 208) (117 4 127) (110 226 58) (162 26 123) (173 5 102) (55 150 172) (224 7 58)
        (55 7 244) (64 37 27) (180 22 55) (24 173 92) (153 232 53) (107 222 63) (132 4 86) (123 3 134) (163 0 86)
        (2 0 146) (218 88 160) (238 36 157) (159 37 3) (93 6 27) (156 53 200) (20 58 26) (15 115 48) (154 3 241)
        (168 78 216) (78 6 139) (130 83 50) (0 95 213) (211 149 219) (191 147 72) (173 45 34) (20 92 254) (73 85 195)
        (237 99 21) (239 8 22) (40 45 38) (128 71 15) (220 88 185) (83 12 138) (200 254 246) (62 11 172) (173 218 141)
        (170 36 59) (68 253 179) (17 45 190) (80 77 183) (202 0 129) (108 164 47) (65 4 209) (169 39 21) (106 63 120)
        (239 143 121) (207 32 160) (76 6 76) (164 60 25) (69 0 65) (190 7 250) (15 8 3) (114 26 182) (22 76 113)
        (48 119 43) (164 10 123) (75 3 40) (119 70 21) (6 7 152) (248 5 87) (172 189 29) (197 44 161) (79 201 79)
        (21 9 127) (180 62 254) (149 231 231) (120 0 116) (7 46 245) (246 6 102) (234 98 238) (56 5 31) (231 0 162)
        (33 18 138) (95 83 29) (39 3 84) (99 9 140) (6 7 173) (154 3 192) (30 5 131) (85 104 91) (159 81 181) (69 55 179)
        (136 233 44) (43 5 154) (107 188 194) (148 9 239) (124 116 75) (135 83 221) (217 4 72) (33 63 230) (54 5 92)
        (224 2 142) (13 9 177) (234 145 248) (223 62 25) (37 3 90) (206 4 30) (119 5 107) (253 9 210) (25 33 13)
        (230 8 229) (52 6 136) (48 7 139) (182 210 83) (70 2 17) (32 2 79) (103 43 221) (38 92 148) (110 155 130)
        (60 72 178) (86 8 247) (8 0 202) (177 69 138) (42 0 26) (181 6 79) (198 5 98) (223 8 45) (74 1 166) (207 131 26)
        (91 9 191) (43 19 236) (192 10 206) (77 9 162) (246 1 248) (81 82 130) (165 114 136) (99 5 197) (143 16 167)
        (45 30 109) (167 3 47) (146 55 88) (224 31 229) (19 189 90) (162 85 57) (208 48 0) (49 134 247) (51 178 228)
        (17 124 189) (55 37 253) (99 40 120) (89 6 72) (50 32 91) (201 55 183) (151 90 237) (226 36 61) (80 163 58)
        (21 9 226) (3 88 190) (218 17 126) (171 78 227) (142 9 102) (192 99 26) (27 3 244) (95 31 235) (145 17 103)
        (86 4 201) (75 22 231) (210 6 208) (246 35 202) (139 42 100) (51 74 81) (225 20 37) (53 243 0) (246 241 61)
        (174 33 65) (241 4 137) (103 74 33) (100 51 110) (153 3 66) (124 93 160) (205 182 77) (230 3 164) (252 73 190)
        (98 88 5) (180 128 116) (54 8 7) (38 8 155) (92 0 32) (123 181 142) (90 1 203) (111 255 100) (63 8 82) (144 1 237)
        (158 2 34) (138 184 99) (106 46 157) (90 100 231) (136 84 109) (84 7 243) (104 239 37) (97 3 118) (135 7 179)
        (148 7 90) (184 8 219) (193 5 160) (172 8 113) (83 132 146) (52 52 58) (34 5 58) (211 77 70) (216 86 189)
        (96 42 31) (104 165 219) (191 99 38) (195 4 122) (94 60 162) (86 39 113) (25 37 149) (173 40 117) (221 22 51)
        (120 8 38) (92 39 110) (19 5 118) (106 2 85) (128 103 0) (152 8 59) (159 8 131) (242 76 182) (151 222 178)
        (21 23 105) (182 154 164) (172 2 59) (238 167 32) (112 0 5) (54 66 91) (230 80 129) (85 54 215) (85 189 204)
        (5 206 182) (43 75 224) (217 241 160) (198 27 185) (120 2 65) (163 8 2) (93 64 156) (238 67 234) (173 42 61)
        (47 238 97) (163 81 238) (167 7 99) (11 10 38) (93 106 201) (151 51 28) (81 9 160) (54 5 95) (13 80 112)
        (169 0 186) (14 2 4) (209 2 28) (143 10 230) (228 114 14) (88 83 222) (249 6 194) (29 100 125) (115 77 20)
        (162 0 193) (28 25 63) (113 3 52) (167 5 227) (195 9 54) (176 57 102) (191 121 63) (126 9 52) (229 4 20)
        (209 87 118) (242 3 109) (109 93 167) (212 8 200) (252 1 71) (201 9 173) (190 56 106) (82 21 132) (199 119 95)
        (207 200 147) (56 11 253) (107 241 44) (211 19 176) (60 9 216) (32 169 130) (98 19 56) (46 92 39) (121 44 154)
        (64 2 79) (191 10 228) (244 45 145) (36 135 122) (182 99 242) (195 6 179) (4 79 236) (128 71 61) (200 70 169)
        (124 7 204) (156 213 181) (145 46 114) (37 6 54) (73 68 235) (56 215 1) (33 5 132) (199 213 101) (124 65 25)
        (198 254 136) (40 84 39) (44 7 156) (57 2 159) (152 4 39) (147 55 64) (168 6 224) (6 165 234) (21 18 145)
        (139 26 99) (8 42 0) (14 3 208) (78 0 78) (122 46 0) (205 62 117) (238 11 156) (0 24 150) (13 78 137) (102 118 40)
        (33 2 42) (163 8 42) (224 7 56) (223 95 135) (41 7 8) (58 6 107) (4 0 215) (6 2 86) (159 13 31) (201 6 40)
        (3 26 236) (243 90 25) (187 3 100) (205 185 95) (91 71 173) (65 43 95) (23 70 52) (47 245 88) (3 172 227)
        (17 35 35) (234 9 136) (51 5 78) (102 17 160) (209 169 183) (209 36 33) (238 5 232) (60 7 2) (117 244 222)
        (171 45 82) (171 63 157) (242 28 182) (33 64 251) (207 186 128) (97 66 51) (151 16 7) (248 3 170) (130 24 46)
        (55 4 43) (185 46 134) (13 2 36) (147 174 69) (163 42 220) (163 7 251) (208 5 78) (121 70 145) (120 1 61)
        (254 4 95) (185 7 54) (47 1 216) (238 80 85) (161 2 222) (140 3 41) (14 101 231) (124 29 161) (237 51 205)
        (252 252 255) (169 7 128) (200 68 31) (232 2 2) (129 28 173) (53 178 180) (236 5 180) (72 93 59) (8 62 21)
        (179 71 121) (136 7 213) (181 31 131) (54 8 112) (31 1 152) (177 8 73) (101 2 111) (37 4 104) (158 6 130)
        (182 120 27) (138 2 50) (80 33 15) (81 78 252) (43 9 229) (88 172 170) (5 226 45) (29 4 227) (29 82 70)
        (181 109 5) (88 77 144) (65 245 77) (38 58 241) (93 98 201) (52 1 234) (144 7 13) (65 174 148) (146 0 136)
        (58 31 198) (122 63 174) (125 8 231) (94 8 6) (51 7 226) (189 138 57) (230 34 254) (43 3 179) (7 105 25)
        (226 4 208) (229 6 41) (0 17 234) (84 0 191) (220 15 164) (191 2 160) (57 123 27) (22 4 186) (23 48 96)
        (47 41 99) (192 162 146) (57 9 223) (68 148 210) (182 4 102) (144 41 242) (145 75 94) (59 0 30) (38 170 83)
        (210 5 199) (72 70 197) (52 7 95) (27 66 180) (87 6 239) (172 0 209) (71 3 11) (22 36 96) (128 0 205) (245 3 45)
        (107 3 138) (50 5 224) (172 1 143) (182 55 245) (75 227 53) (215 68 211) (234 179 224) (80 8 74) (251 7 54)
        (124 0 170) (113 141 95) (103 2 50) (121 88 73) (13 56 13) (218 116 100) (142 7 72) (249 200 226) (19 95 137)
        (5 8 236) (227 74 101) (41 5 48) (103 43 145) (108 155 12) (69 82 79) (93 8 178) (192 207 78) (68 46 253)
        (216 234 151) (97 61 212) (73 6 19) (125 2 95) (99 104 237) (231 4 171) (124 3 5) (70 244 163) (139 50 12)
        (50 7 235) (25 181 13) (23 49 147) (10 44 179) (177 19 65) (44 82 155) (228 82 41) (103 134 204) (113 248 229)
        (105 98 247) (178 202 56) (79 17 107) (29 69 153) (246 82 110) (187 57 198) (188 2 2) (239 131 48) (230 2 243)
        (62 24 70) (88 33 166) (75 1 231) (190 1 198) (34 3 178) (54 14 217) (180 4 60) (163 171 164) (245 2 26)
        (131 20 212) (127 6 88) (66 8 188) (24 174 37) (112 116 234) (165 80 28) (59 122 42) (136 246 200) (216 34 159)
        (67 4 184) (87 28 46) (52 248 53) (189 9 84) (176 133 185) (22 3 209) (34 4 153) (55 242 74) (177 5 47)
        (116 154 233) (172 14 169) (105 11 245) (211 33 76) (166 238 170) (124 77 135) (58 18 50) (49 214 36) (145 3 76)
        (1 13 11) (14 68 191) (180 8 54) (144 147 1) (36 8 5) (46 205 84) (187 100 96) (170 249 185) (190 4 172)
        (250 26 244) (11 232 37) (145 75 119) (186 29 4) (24 32 49) (219 246 177) (30 80 252) (127 134 155) (170 3 20)
        (102 151 21) (152 217 63) (97 2 94) (145 1 178) (26 2 218) (217 107 31) (116 3 47) (106 38 240) (224 6 40)
        (206 80 158) (67 108 185) (6 5 33) (81 87 136) (175 197 42) (209 6 196) (197 157 152) (79 206 94) (76 4 229)
        (211 76 78) (61 55 187) (17 23 177) (138 5 79) (56 158 43) (14 239 241) (47 9 57) (200 69 230) (84 19 193)
        (80 6 67) (90 6 231) (97 184 166) (208 0 42) (110 35 167) (239 6 116) (23 5 51) (124 79 97) (66 72 110)
        (27 73 25) (2 97 199) (52 8 70) (194 72 134) (152 4 5) (8 119 200) (85 99 195) (194 23 92) (82 99 98) (172 63 58)
        (172 95 11) (199 36 176) (206 88 250) (58 2 190) (39 73 245) (76 99 189) (158 1 168) (238 68 222) (152 3 251)
        (161 96 185) (62 4 108) (244 122 23) (148 4 67) (106 13 181) (109 7 16) (250 243 169) (61 120 98) (92 106 15)
        (18 0 65) (188 66 138) (210 47 19) (165 59 151) (198 54 17) (148 7 133) (96 38 175) (112 8 157) (33 97 150)
        (165 7 122) (129 52 145) (43 79 41) (159 15 176) (232 213 254) (19 96 138) (176 2 177) (12 91 205) (152 6 181)
        (92 207 160) (2 15 195) (120 94 62) (49 97 127) (15 30 100) (161 7 247) (43 6 138) (184 7 33) (148 32 67)
        (113 4 234) (143 5 127) (160 139 233) (46 4 39) (88 7 140) (12 89 87) (130 1 116) (95 1 2) (226 4 103) (255 182 246)
        (112 229 161) (77 242 38) (146 1 46) (39 144 113) (249 69 208) (116 6 19) (251 14 210) (121 1 10) (147 146 82)
        (133 86 185) (201 9 132) (234 94 90) (17 8 150) (136 64 213) (231 49 186) (131 77 234) (207 129 223) (191 1 10)
        (60 29 8) (241 1 190) (130 63 175) (14 232 180) (41 9 23) (14 3 223) (178 31 101) (133 6 15) (123 22 248)
        (106 6 228) (99 4 69) (222 8 98) (44 9 185) (32 21 233) (188 50 175) (150 0 254) (223 147 169) (32 83 181)
        (29 26 18) (224 9 44) (239 33 102) (206 129 140) (231 56 40) (116 2 190) (170 159 26) (190 55 23) (51 66 81)
        (198 44 250) (176 41 74) (157 34 239) (57 131 179) (187 31 188) (13 210 70) (192 4 219) (168 0 236) (193 88 80)
        (169 88 126) (244 138 229) (56 17 122) (86 9 142) (156 37 61) (43 4 242) (178 8 54) (113 155 164) (101 0 70)
        (44 97 224) (35 166 173) (44 135 104) (113 56 133) (220 4 84) (160 22 189) (139 66 39) (218 140 11) (147 63 59)
        (236 232 155) (241 84 93) (42 24 116) (181 0 176) (223 53 154) (145 5 28) (40 194 44) (93 45 184) (251 1 84)
        (102 9 61) (160 6 228) (62 4 7) (61 71 245) (177 226 241) (200 7 131) (119 85 135) (142 9 161) (115 106 138)
        (197 85 12) (37 0 65) (93 48 153) (218 211 155) (123 57 20) (187 18 224) (106 120 217) (183 6 152) (103 2 94)
        (230 59 22) (183 211 25) (68 34 68) (153 105 37) (78 6 8) (202 16 175) (173 9 103) (23 9 204) (162 131 151)
        (19 58 215) (178 0 48) (44 12 132) (246 246 89) (200 241 31) (243 61 223) (11 76 144) (41 98 137) (135 4 118)
        (188 6 167) (161 75 219) (98 248 242) (137 89 73) (103 238 73) (34 232 10) (18 13 226) (14 5 255) (35 194 135)
        (98 88 210) (89 2 57) (19 58 163) (42 3 222) (100 112 56) (246 3 130) (41 70 62) (33 6 214) (239 78 24)
        (78 8 102) (14 69 235) (11 222 38) (187 0 179) (89 71 64) (166 253 68) (66 30 220) (198 6 34) (157 3 57)
        (79 5 112) (8 130 163) (144 2 67) (70 8 225) (219 50 155) (25 4 239) (16 0 169) (44 2 84) (1 2 95) (103 127 108)
        (88 8 204) (55 2 117) (99 216 26) (89 86 160) (223 57 101) (8 5 131) (101 8 157) (193 58 174) (56 5 16)
        (238 8 26) (7 7 206) (177 27 36) (227 4 5) (54 2 109) (63 96 53) (191 0 59) (123 6 39) (50 0 190) (130 36 199)
        (206 0 128) (58 61 115) (179 8 199) (64 0 200) (211 4 59) (9 239 89) (80 15 58) (240 5 3) (99 76 23) (65 38 71)
        (106 2 188) (255 5 87) (199 7 221) (8 65 201) (210 5 0) (233 55 240) (155 19 99) (79 23 109) (53 222 87)
        (153 87 51) (135 61 192) (149 193 27) (190 8 116) (53 3 60) (23 233 161) (1 38 157) (199 4 74) (53 7 132)
        (15 121 151) (231 64 122) (121 31 107) (82 5 74) (117 73 153) (171 139 16) (213 2 20) (34 9 196) (114 8 86)
        (91 2 27) (242 8 100) (137 66 138) (186 7 199) (111 41 147) (181 112 133) (146 30 184) (72 9 208) (16 68 158)
        (47 51 4) (15 50 62) (67 40 104) (242 253 16) (17 172 17) (100 154 12) (228 9 249) (12 40 62) (134 9 4)
        (55 54 80) (89 0 165) (236 159 208) (221 14 180) (58 70 81) (195 163 130) (247 1 165) (64 38 18) (6 0 198)
        (89 2 207) (103 252 40) (86 8 79) (108 144 150) (216 41 227) (63 172 26) (110 1 188) (132 6 234) (230 3 188)
        (19 82 103) (6 9 41) (190 7 228) (101 14 199) (25 3 1) (4 87 201) (212 6 64) (229 217 51) (121 95 63) (67 154 10)
        (168 176 76) (202 17 183) (185 3 54) (83 2 175) (197 27 189) (222 172 89) (254 12 207) (10 0 58) (53 1 253)
        (77 51 96) (145 12 64) (164 34 139) (75 4 57) (212 42 247) (255 8 71) (12 8 50) (213 148 81) (76 7 221)
        (198 160 24) (212 80 39) (11 61 135) (238 43 78) (10 7 30) (36 29 244) (209 8 102) (134 71 246) (84 9 37)
        (174 175 184) (3 243 113) (202 86 56) (149 202 159) (153 0 4) (92 48 6) (94 93 255) (116 47 127) (215 63 151)
        (216 9 10) (215 160 127) (31 41 145) (2 5 97) (77 231 146) (17 162 173) (131 6 219) (2 19 113) (90 139 114)
        (162 224 164) (53 163 152) (69 69 95) (25 5 231) (224 88 242) (231 7 27) (204 7 218) (152 3 103) (239 52 91)
        (69 7 102) (31 1 222) (7 101 243) (103 34 158) (38 7 154) (139 8 210) (54 5 188) (12 8 242) (237 35 229)
        (149 6 37) (93 26 176) (5 196 232) (175 6 66) (234 7 130) (184 207 151) (172 89 34) (54 107 225) (91 135 12)
        (144 133 33) (182 93 230) (133 51 9) (20 6 243) (30 170 20) (115 89 93) (44 230 62) (240 8 150) (172 233 229)
        (152 149 63) (55 1 166) (89 238 136) (44 42 149) (167 2 14) (25 3 113) (189 2 212) (140 2 217) (98 82 72)
        (87 91 179) (72 188 102) (252 155 244) (115 23 22) (29 157 193) (237 101 34) (145 2 92) (144 10 251) (163 65 30)
        (5 109 192) (94 92 78) (37 74 156) (216 48 115) (62 1 156) (127 11 189) (251 121 191) (63 121 18) (163 58 3)
        (2 133 17) (165 6 235) (149 3 255) (29 84 48) (100 69 40) (182 1 191) (57 2 140) (190 35 49) (76 1 28) (46 158 42)
        (68 49 105) (84 95 133) (146 36 90) (134 3 208) (106 68 74) (159 3 1) (122 5 108) (152 200 204) (136 137 43)
        (89 1 174) (172 8 83) (124 4 69) (77 138 196) (46 5 188) (173 64 206) (8 6 151) (75 105 42) (193 45 237)
        (6 238 184) (18 45 135) (121 161 226) (122 77 27) (158 87 246) (106 253 200) (132 247 176) (162 122 244)
        (49 2 252) (209 246 242) (178 65 174) (186 10 14) (105 9 88) (161 98 28) (49 0 34) (141 32 201) (184 192 9)
        (5 71 153) (201 56 209) (95 43 132) (242 7 1) (178 182 217) (118 137 74) (77 143 184) (202 249 77) (237 4 73)
        (107 71 113) (98 3 0) (190 7 222) (27 75 78) (43 6 117) (170 5 127) (132 74 159) (47 254 195) (49 100 120)
        (221 23 195) (168 142 3) (117 151 165) (113 11 77) (154 8 145) (91 20 27) (56 95 195) (133 7 245) (245 19 139)
        (14 50 83) (251 98 55) (97 7 120) (207 8 39) (136 93 243) (30 71 88) (70 9 194) (61 0 36) (40 62 108) (68 8 227)
        (70 58 182) (176 37 72) (241 38 157) (229 141 19) (81 55 216) (203 83 29) (132 27 10) (172 73 254) (4 49 162)
        (91 97 40) (51 159 35) (104 94 17) (31 96 111) (80 20 22) (233 5 213) (127 1 99) (68 207 30) (192 14 21)
        (166 69 77) (195 8 88) (143 1 202) (230 9 228) (207 15 1) (86 67 26) (202 9 237) (9 8 219) (82 85 161) (217 138 6)
        (128 51 107) (197 75 52) (165 50 102) (80 2 182) (150 30 19) (115 7 102) (43 207 16) (43 5 135) (23 3 124)
        (50 38 45) (20 8 111) (68 151 63) (207 7 120) (253 0 44) (137 9 4) (78 10 123) (62 0 87) (225 3 64) (1 1 219)
        (141 44 58) (169 101 255) (73 6 95) (120 184 74) (44 4 225) (33 49 132) (71 2 223) (33 61 0) (68 2 120)
        (248 2 154) (241 34 114) (254 9 245) (251 107 149) (121 241 130) (21 78 36) (110 2 27) (219 245 125) (120 43 49)
        (249 55 212) (238 63 30) (90 49 91) (244 238 147) (160 47 148) (155 70 213) (38 0 103) (45 5 106) (232 89 36)
        (92 90 117) (159 112 204) (13 2 218) (108 16 126) (181 200 13) (202 47 237) (78 20 213) (98 41 254) (248 9 15)
        (51 4 131) (229 158 250) (30 6 52) (189 176 25) (41 91 186) (98 109 5) (159 239 109) (64 10 89) (245 37 57)
        (12 74 145) (94 4 116) (25 245 125) (235 44 247) (103 154 106) (167 4 70) (216 159 217) (132 76 114) (189 247 253)
        (219 6 186) (188 135 115) (193 86 150) (110 6 161) (162 24 224) (117 65 119) (117 15 222) (230 17 175) (88 1 99)
        (10 3 175) (96 21 11) (98 91 228) (158 9 94) (80 8 37) (108 188 255) (229 89 206) (129 34 236) (216 94 80)
        (34 8 25) (149 39 129) (35 17 138) (220 73 149) (173 1 170) (191 76 132) (60 32 200) (170 20 47) (62 181 88)
        (129 87 170) (101 183 161) (82 6 122) (71 8 93) (217 22 163) (87 0 246) (46 58 48) (148 81 16) (162 3 33)
        (9 109 92) (2 39 59) (227 2 76) (145 18 7) (95 59 206) (23 29 106) (161 185 109) (175 0 115) (83 55 138)
        (151 24 141) (62 178 59) (205 149 228) (121 6 155) (88 1 181) (159 97 70) (97 25 96) (87 10 122) (94 46 188)
        (188 51 93) (226 42 208) (249 81 154) (67 97 199) (180 43 1) (157 66 198) (196 4 118) (28 6 133) (215 108 27)
        (48 87 249) (11 9 148) (33 3 65) (41 3 254) (166 0 122) (179 164 52) (241 6 109) (159 7 47) (64 60 33) (91 62 11)
        (165 207 115) (233 30 18) (213 83 165)
    } };
}
