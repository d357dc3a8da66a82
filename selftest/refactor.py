"""Behaviour-preserving edits on which every check must stay quiet. Usage: refactor.py [name-regex]; works in a scratch copy."""
import os, re, shutil, subprocess, sys, tempfile, concurrent.futures
HERE = os.path.dirname(os.path.abspath(__file__)); SRC = os.environ.get('VC_REPO', '/repo')
M = 'modules/utils/include/litiv/utils/math.hpp'; LC = 'modules/features2d/src/LBSP.cpp'; LH = 'modules/features2d/include/litiv/features2d/LBSP.hpp'
ME = 'modules/datasets/src/metrics.cpp'; MH = 'modules/datasets/include/litiv/datasets/metrics.hpp'; IP = 'modules/imgproc/src/imgproc.cpp'; CV = 'modules/utils/include/litiv/utils/opencv.hpp'; SI = 'modules/utils/include/litiv/utils/simd.hpp'
R = []
def r(name, props, *edits): R.append((name, props.split(), edits))
L1OLD = '''        Tout tResult = 0;
        const size_t nTotElements = nElements*nChannels;
        if(m) {
            for(size_t n=0,i=0; n<nTotElements; n+=nChannels,++i)
                if(m[i])
                    tResult += L1dist<nChannels,Tin,Tout>(a+n,b+n);
        }
        else {
            for(size_t n=0; n<nTotElements; n+=nChannels)
                tResult += L1dist<nChannels,Tin,Tout>(a+n,b+n);
        }
        return tResult;
'''
r('l1_single_loop', 'P02', (M, L1OLD, '''        Tout tResult = 0;
        for(size_t i=0; i<nElements; ++i) {
            if(m && !m[i])
                continue;
            tResult += L1dist<nChannels,Tin,Tout>(a+i*nChannels,b+i*nChannels);
        }
        return tResult;
'''))
r('l1_pointers', 'P02', (M, L1OLD, '''        Tout tResult = 0;
        const Tin* const pEnd = a+nElements*nChannels;
        while(a!=pEnd) {
            if(!m || *m++)
                tResult += L1dist<nChannels,Tin,Tout>(a,b);
            a += nChannels;
            b += nChannels;
        }
        return tResult;
'''))
r('l1_lambda', 'P02', (M, L1OLD, '''        Tout tResult = 0;
        const auto lAdd = [&](size_t nIdx) {
            tResult += L1dist<nChannels,Tin,Tout>(a+nIdx*nChannels,b+nIdx*nChannels);
        };
        if(m==nullptr) {
            for(size_t i=0; i<nElements; ++i)
                lAdd(i);
            return tResult;
        }
        size_t i = 0;
        while(i<nElements) {
            if(m[i]!=0)
                lAdd(i);
            ++i;
        }
        return tResult;
'''))
r('l1_scalar_branch', 'P01 P02', (M, '''        return (std::make_unsigned_t<T>)std::abs(((std::make_signed_t<typename lv::get_bigger_integer<T>::type>)a)-b);''',
 '''        typedef std::make_unsigned_t<T> Tu;
        return (a>b)?Tu(Tu(a)-Tu(b)):Tu(Tu(b)-Tu(a));'''))
r('popcount_loop', 'P01', (M, '''            tResult += (Tout)L1dist(a[c],b[c]);
        return tResult;
    }

    /// computes the L1 distance between two generic arrays
    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
    inline Tout L1dist(const std::array<Tin,nChannels>& a, const std::array<Tin,nChannels>& b) {''', '''            tResult = Tout(tResult+Tout(L1dist(a[c],b[c])));
        return tResult;
    }

    /// computes the L1 distance between two generic arrays
    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
    inline Tout L1dist(const std::array<Tin,nChannels>& a, const std::array<Tin,nChannels>& b) {'''))
r('next_pow2', 'P04', (M, '    inline uint32_t get_next_pow2(uint32_t nVal) {\n', '    inline uint32_t get_next_pow2(uint32_t nVal) {\n        if(nVal<=1)\n            return nVal;\n'))
ACC = '''                if(input_step_ptr[j]==DATASETUTILS_POSITIVE_VAL) {
                    if(gt_step_ptr[j]==DATASETUTILS_POSITIVE_VAL)
                        ++nTP;
                    else // gt_step_ptr[j]==s_nSegmNegative
                        ++nFP;
                }
                else { // input_step_ptr[j]==s_nSegmNegative
                    if(gt_step_ptr[j]==DATASETUTILS_POSITIVE_VAL)
                        ++nFN;
                    else // gt_step_ptr[j]==s_nSegmNegative
                        ++nTN;
                }
                if(gt_step_ptr[j]==DATASETUTILS_SHADOW_VAL) {
                    if(input_step_ptr[j]==DATASETUTILS_POSITIVE_VAL)
                        ++nSE;
                }
'''
r('acc_branches', 'P10', (ME, ACC, '''                const bool bPos = (input_step_ptr[j]==DATASETUTILS_POSITIVE_VAL);
                const bool bGTPos = (gt_step_ptr[j]==DATASETUTILS_POSITIVE_VAL);
                if(bGTPos)
                    ++(bPos?nTP:nFN);
                else
                    ++(bPos?nFP:nTN);
                if(bPos && gt_step_ptr[j]==DATASETUTILS_SHADOW_VAL)
                    ++nSE;
'''))
r('acc_local_counters', 'P10', (ME, ACC, ACC.replace('++nTP', '++nLocalTP').replace('++nFP', '++nLocalFP')), (ME, '''    const size_t step_row = oClassif.step.p[0];
    for(size_t i = 0; i<(size_t)oClassif.rows; ++i) {''', '''    const size_t step_row = oClassif.step.p[0];
    uint64_t nLocalTP=0, nLocalFP=0;
    for(size_t i = 0; i<(size_t)oClassif.rows; ++i) {'''), (ME, '''            else
                ++nDC;
        }
    }
}

cv::Mat lv::BinClassif::getColoredMask''', '''            else
                ++nDC;
        }
    }
    nTP += nLocalTP;
    nFP += nLocalFP;
}

cv::Mat lv::BinClassif::getColoredMask'''))
r('acc_rowptr', 'P10', (ME, '''    for(size_t i = 0; i<(size_t)oClassif.rows; ++i) {
        const size_t idx_nstep = step_row*i;
        const uchar* input_step_ptr = oClassif.data+idx_nstep;
        const uchar* gt_step_ptr = oGT.data+idx_nstep;
        const uchar* roi_step_ptr = oROI.data+idx_nstep;
        for(int j = 0; j<oClassif.cols; ++j) {
            if(gt_step_ptr[j]!=DATASETUTILS_OUTOFSCOPE_VAL &&''', '''    lvIgnore(step_row);
    for(int i = 0; i<oClassif.rows; ++i) {
        const uchar* input_step_ptr = oClassif.ptr<uchar>(i);
        const uchar* gt_step_ptr = oGT.ptr<uchar>(i);
        const uchar* roi_step_ptr = oROI.empty()?nullptr:oROI.ptr<uchar>(i);
        for(int j = oClassif.cols-1; j>=0; --j) {
            if(gt_step_ptr[j]!=DATASETUTILS_OUTOFSCOPE_VAL &&'''))
r('acc_continue', 'P10', (ME, '''        for(int j = 0; j<oClassif.cols; ++j) {
            if(gt_step_ptr[j]!=DATASETUTILS_OUTOFSCOPE_VAL &&
               gt_step_ptr[j]!=DATASETUTILS_UNKNOWN_VAL &&
               (oROI.empty() || roi_step_ptr[j]!=DATASETUTILS_NEGATIVE_VAL)) {
                if(input_step_ptr[j]==DATASETUTILS_POSITIVE_VAL) {
                    if(gt_step_ptr[j]==DATASETUTILS_POSITIVE_VAL)
                        ++nTP;''', '''        for(int j = 0; j<oClassif.cols; ++j) {
            if(gt_step_ptr[j]==DATASETUTILS_OUTOFSCOPE_VAL || gt_step_ptr[j]==DATASETUTILS_UNKNOWN_VAL || (!oROI.empty() && roi_step_ptr[j]==DATASETUTILS_NEGATIVE_VAL)) {
                ++nDC;
                continue;
            }
            else {
                if(input_step_ptr[j]==DATASETUTILS_POSITIVE_VAL) {
                    if(gt_step_ptr[j]==DATASETUTILS_POSITIVE_VAL)
                        ++nTP;'''), (ME, '''                        ++nSE;
                }
            }
            else
                ++nDC;
        }''', '''                        ++nSE;
                }
            }
        }'''))
H8 = '''            int nTotCount = 0;
            for(size_t nElemIdx=0u; nElemIdx<oInput.total(); ++nElemIdx) {
                if(oMask.data[nElemIdx]) {
                    ++nTotCount;
                    ++vCounts[((uchar*)oInput.data)[nElemIdx]];
                }
            }
'''
r('hist_ptr', 'P12', (IP, H8, '''            int nTotCount = 0;
            const uchar* pInput = oInput.data;
            const uchar* pMask = oMask.data;
            const size_t nTotElems = oInput.total();
            for(size_t nElemIdx=0u; nElemIdx<nTotElems; ++nElemIdx, ++pInput, ++pMask) {
                if(*pMask==0)
                    continue;
                vCounts[*pInput] += 1;
                nTotCount += 1;
            }
'''))
r('hist_2d', 'P12', (IP, '''            for(size_t nElemIdx=0u; nElemIdx<oInput.total(); ++nElemIdx)
                ++vCounts[((uchar*)oInput.data)[nElemIdx]];
''', '''            size_t nElemIdx = oInput.total();
            while(nElemIdx>0u)
                ++vCounts[((uchar*)oInput.data)[--nElemIdx]];
'''))
r('median_for', 'P12', (IP, '''    while(nCurrElemCount<=nHalfCount) {
        nCurrElemCount += vCounts[++nBinVal];
        lvDbgAssert((size_t)nBinVal<vCounts.size());
        lvDbgAssert(nCurrElemCount<=(int)oInput.total());
    }
    return nBinVal;''', '''    for(; nCurrElemCount<=nHalfCount; ) {
        ++nBinVal;
        nCurrElemCount = nCurrElemCount+vCounts[nBinVal];
    }
    return nBinVal;'''))
r('median_alt', 'P12', (IP, '''    int nBinVal=0,nCurrElemCount=vCounts[0],nHalfCount=nTotCount/2;
    while(nCurrElemCount<=nHalfCount) {
        nCurrElemCount += vCounts[++nBinVal];
        lvDbgAssert((size_t)nBinVal<vCounts.size());
        lvDbgAssert(nCurrElemCount<=(int)oInput.total());
    }
    return nBinVal;''', '''    const int nHalfCount = nTotCount/2;
    int nCurrElemCount = 0;
    for(size_t nBinIdx=0; nBinIdx<vCounts.size(); ++nBinIdx) {
        nCurrElemCount += vCounts[nBinIdx];
        if(nCurrElemCount>nHalfCount)
            return (int)nBinIdx;
    }
    lvError("unexpected histogram contents");
    return -1;'''))
D1 = '''        for(int y=int(LBSP::PATCH_SIZE)/2; y<oInputImg.rows-int(LBSP::PATCH_SIZE)/2; ++y)
            for(int x=int(LBSP::PATCH_SIZE)/2; x<oInputImg.cols-int(LBSP::PATCH_SIZE)/2; ++x)
                LBSP::computeDescriptor<1>(oInputImg,oRefMat.at<uchar>(y,x),x,y,0,t,oDesc.at<ushort>(y,x));
'''
r('lbsp_hoist', 'P06', (LC, D1, '''        constexpr int nBorder = int(LBSP::PATCH_SIZE)/2;
        const int nMaxY = oInputImg.rows-nBorder, nMaxX = oInputImg.cols-nBorder;
        for(int y=nBorder; y<nMaxY; ++y) {
            const uchar* pRefRow = oRefMat.ptr<uchar>(y);
            ushort* pDescRow = oDesc.ptr<ushort>(y);
            for(int x=nBorder; x<nMaxX; ++x)
                LBSP::computeDescriptor<1>(oInputImg,pRefRow[x],x,y,0,t,pDescRow[x]);
        }
'''))
r('lbsp_swap_loops', 'P06', (LC, D1, '''        for(int x=int(LBSP::PATCH_SIZE)/2; x<oInputImg.cols-int(LBSP::PATCH_SIZE)/2; ++x)
            for(int y=int(LBSP::PATCH_SIZE)/2; y<oInputImg.rows-int(LBSP::PATCH_SIZE)/2; ++y)
                LBSP::computeDescriptor<1>(oInputImg,oRefMat.at<uchar>(y,x),x,y,0,t,oDesc.at<ushort>(y,x));
'''))
r('lbsp_kp_rangefor', 'P06', (LC, '''        for(size_t k=0; k<nKeyPoints; ++k)
            oOutput.at<ushort>((int)voKeypoints[k].pt.y,(int)voKeypoints[k].pt.x) = oDescriptors.at<ushort>((int)k);''', '''        int nDescIdx = 0;
        for(const cv::KeyPoint& oKP : voKeypoints)
            oOutput.at<ushort>(cv::Point((int)oKP.pt.x,(int)oKP.pt.y)) = oDescriptors.at<ushort>(nDescIdx++,0);'''))
r('lbsp_thr_scalar', 'P06', (LH, '        return (desc_t)_mm_movemask_epi8(_abCmpRes);', '''        const int nMask = _mm_movemask_epi8(_abCmpRes);
        return (desc_t)(nMask&0xFFFF);'''))
r('lbsp_lookup_named', 'P06', (LH, '''            anVals[n] = anData[nRowStep*s_oIdxLUT_16bitdbcross_y.anOffsets[n]+nColStep*s_oIdxLUT_16bitdbcross_x.anOffsets[n]];''', '''            const ptrdiff_t nOffset = ptrdiff_t(nRowStep)*s_oIdxLUT_16bitdbcross_y.anOffsets[n]+ptrdiff_t(nColStep)*s_oIdxLUT_16bitdbcross_x.anOffsets[n];
            anVals[n] = *(anData+nOffset);'''))
r('lbsp_dist_generic', 'P06', (LC, '''    if(oDescriptors1.channels()==1)
        for(int nDescRowIdx=0; nDescRowIdx<oDescriptors1.rows; ++nDescRowIdx)
            for(int nDescColIdx=0; nDescColIdx<oDescriptors1.cols; ++nDescColIdx)
                oDistances(nDescRowIdx,nDescColIdx) = lv::hdist<ushort,uchar>(oDescriptors1.at<ushort>(nDescRowIdx,nDescColIdx),oDescriptors2.at<ushort>(nDescRowIdx,nDescColIdx));
''', '''    if(oDescriptors1.channels()==1)
        for(int nDescRowIdx=0; nDescRowIdx<oDescriptors1.rows; ++nDescRowIdx) {
            const ushort* pDesc1 = oDescriptors1.ptr<ushort>(nDescRowIdx);
            const ushort* pDesc2 = oDescriptors2.ptr<ushort>(nDescRowIdx);
            uchar* pDist = oDistances.ptr<uchar>(nDescRowIdx);
            int nDescColIdx = 0;
            while(nDescColIdx<oDescriptors1.cols) {
                *pDist++ = lv::popcount<ushort,uchar>(ushort((*pDesc1++)^(*pDesc2++)));
                ++nDescColIdx;
            }
        }
'''))
r('lbsp_roi_loops', 'P06', (LC, '''    cv::Mat(oROI,nROI_inner).copyTo(cv::Mat(oROI_new,nROI_inner));''', '''    for(int nRowIdx=nROI_inner.y; nRowIdx<nROI_inner.y+nROI_inner.height; ++nRowIdx)
        for(int nColIdx=nROI_inner.x; nColIdx<nROI_inner.x+nROI_inner.width; ++nColIdx)
            oROI_new.at<uchar>(nRowIdx,nColIdx) = oROI.at<uchar>(nRowIdx,nColIdx);'''))
r('arr_acc_iter', 'P11', (ME, '''    for(size_t s=0; s<this->m_vCounters.size(); ++s)
        m->m_oCounters.accumulate(this->m_vCounters[s]);
    return m;''', '''    for(const auto& oCounters : this->m_vCounters)
        m->m_oCounters.accumulate(oCounters);
    return m;'''))

def one(x):
    name, props, edits = x
    d = tempfile.mkdtemp(prefix='vc_ref_'); out = []
    try:
        subprocess.run(['rsync', '-a', '--exclude', '.git', '--exclude', '_build', SRC + '/', d + '/'], check=True)
        for f, old, new in edits:
            s = open(d + '/' + f).read()
            if s.count(old) < 1: return name, ['edit does not apply: ' + f]
            open(d + '/' + f, 'w').write(s.replace(old, new, 1))
        for p in props:
            q = subprocess.run([sys.executable, HERE + '/../vcgen/check.py', p, '--nofuzz'], env=dict(os.environ, VC_REPO=d, VC_BUILD=SRC), capture_output=True, text=True)
            out.append('%s rc=%d %s' % (p, q.returncode, '' if q.returncode == 0 else q.stdout[-1500:] + q.stderr[-500:]))
    finally: shutil.rmtree(d, ignore_errors=True)
    return name, out
if __name__ == '__main__':
    pat = re.compile(sys.argv[1] if len(sys.argv) > 1 else '.')
    for x in R:
        if pat.search(x[0]) or any(pat.fullmatch(p) for p in x[1]):
            n, o = one(x); print(n, '\n   '.join(o), flush=True)
